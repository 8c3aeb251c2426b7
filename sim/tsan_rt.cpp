// The code under test is compiled with -fsanitize=thread for its instrumentation
// only; these entry points replace the ThreadSanitizer runtime and make every
// memory access and every atomic operation a preemption point.
#include "rt.h"
#include <cstring>
using namespace sim;
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32; typedef unsigned long u64;
typedef unsigned __int128 u128;

#define Y() do { if (simulated()) memYield(); } while (0)
// the access itself happens right after the hook returns: check after the switch
#define YA(p, n, w) do { if (simulated()) { memYield(); memAccess(p, n, w); } } while (0)

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) void __tsan_read##n(void* p) { YA(p, n, false); } void __tsan_write##n(void* p) { YA(p, n, true); } \
              void __tsan_unaligned_read##n(void* p) { YA(p, n, false); } void __tsan_unaligned_write##n(void* p) { YA(p, n, true); } \
              void __tsan_volatile_read##n(void* p) { YA(p, n, false); } void __tsan_volatile_write##n(void* p) { YA(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { YA(p, n, false); }
void __tsan_write_range(void* p, long n) { YA(p, n, true); }

#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int) { YA((void*)a, sizeof(T), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(volatile T* a, T v, int) { YA((void*)a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { YA((void*)a, sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { YA((void*)a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { YA((void*)a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { YA((void*)a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { YA((void*)a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { YA((void*)a, sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { YA((void*)a, sizeof(T), true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { YA((void*)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { YA((void*)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { YA((void*)a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { Y(); }
void __tsan_atomic_signal_fence(int) {}
}
