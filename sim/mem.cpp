// Heap seam: while a simulation runs, every allocation made by simulated threads
// comes from a deterministic arena with guard zones and a shadow map, so that an
// out-of-bounds or after-free access by instrumented code is seen at the access
// itself.  Allocation failures are injected here.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

static inline void rawFill(void* p, int v, size_t n) { __asm__ volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory"); }
static inline void rawCopy(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }

namespace sim {
namespace {
constexpr uint64_t kBase = 0x600000000000ull;
constexpr uint64_t kSize = 1ull << 30;
constexpr uint8_t SH_RED = 0xfa, SH_FREED = 0xfd, SH_NONE = 0xff;
struct Hdr { uint64_t magic; uint64_t size; uint64_t tag; uint64_t start; };
constexpr uint64_t kMagic = 0x51a110c8ed00beefull, kFreedMagic = 0x51a1dead51a1deadull;
bool g_ready = false;
uint64_t g_bump = 0;
uint8_t* g_shadow = nullptr;
std::atomic<int> g_lk{0};
struct Lk { Lk() { while (g_lk.exchange(1)) {} } ~Lk() { g_lk.store(0); } };
MemStats g_ms;
__thread int tl_arm = 0;
__thread uint32_t tl_num = 0, tl_den = 1;
uint64_t g_tagged = 0;

inline bool inArena(const void* p) { return (uint64_t)p - kBase < kSize; }

void setShadow(uint64_t a, uint64_t n, uint8_t v) { rawFill(g_shadow + ((a - kBase) >> 3), v, (n + 7) >> 3); }

void* arenaAlloc(size_t n, size_t align) {
    Lk l;
    if (align < 16) align = 16;
    uint64_t start = kBase + g_bump;
    uint64_t user = (start + sizeof(Hdr) + 16 + align - 1) & ~(uint64_t)(align - 1);
    uint64_t end = (user + n + 16 + 15) & ~15ull;
    if (n > kSize || end + 64 > kBase + kSize) harnessError("simulated heap exhausted");
    g_bump = end - kBase;
    Hdr* h = (Hdr*)(user - sizeof(Hdr));
    h->magic = kMagic; h->size = n; h->start = start; h->tag = tl_arm ? 1 : 0;
    setShadow(start, end - start, SH_RED);
    if (n) {
        rawFill(g_shadow + ((user - kBase) >> 3), 0, n >> 3);
        if (n & 7) g_shadow[(user - kBase + n) >> 3] = n & 7;
    }
    rawFill((void*)(user + n), 0xfb, end - user - n);
    rawFill((void*)user, 0xcb, n);
    if (tl_arm) { g_ms.allocs++; g_ms.liveBlocks++; g_ms.liveBytes += n; }
    return (void*)user;
}

Hdr* hdr(void* p) { return (Hdr*)((uint64_t)p - sizeof(Hdr)); }

void guardCheck(void* p, Hdr* h) {
    for (uint64_t a = (uint64_t)p + h->size; a & 15 || a == (uint64_t)p + h->size; ++a)
        if (*(uint8_t*)a != 0xfb) violation("heap corruption: a write went past the end of a %llu-byte block", (unsigned long long)h->size);
}

void arenaFree(void* p) {
    Hdr* h = hdr(p);
    if (h->magic == kFreedMagic) violation("heap corruption: block freed twice");
    if (h->magic != kMagic) violation("heap corruption: freed pointer is not the start of a block (or its header was overwritten)");
    guardCheck(p, h);
    Lk l;
    h->magic = kFreedMagic;
    rawFill(p, 0xdd, h->size);
    setShadow((uint64_t)p, h->size ? h->size : 1, SH_FREED);
    if (h->tag) { g_ms.frees++; g_ms.liveBlocks--; g_ms.liveBytes -= h->size; }
}

inline bool useArena() { return g_active && g_ready && tl_rt == 0; }
bool injectFail() {
    if (!tl_arm || !tl_num) return false;
    return fault("alloc_fail", tl_num, tl_den);
}
}  // namespace

void memInit() {
    void* p = mmap((void*)kBase, kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)kBase) { abort(); }
    g_shadow = (uint8_t*)mmap(nullptr, kSize / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_ready = true;
}

// An access by instrumented code.  Untouched shadow (0) of never-allocated arena
// space is not reachable through a valid pointer, so it is not distinguished.
void memAccess(const void* p, size_t n, bool write) {
    if (!inArena(p) || !g_ready) return;
    uint64_t o = (uint64_t)p - kBase;
    uint64_t last = o + (n ? n - 1 : 0);
    for (uint64_t g = o >> 3; g <= last >> 3; ++g) {
        uint8_t s = g_shadow[g];
        if (s == 0) continue;
        if (s < 8) {
            uint64_t hi = (g == last >> 3) ? (last & 7) : 7;
            if (hi < s) continue;
        }
        if (s == SH_FREED) violation("heap-use-after-free: %s of %zu bytes in a freed block", write ? "write" : "read", n);
        violation("heap-buffer-overflow: %s of %zu bytes outside its block", write ? "write" : "read", n);
    }
}

void memArm(bool fails, uint32_t num, uint32_t den) { tl_arm = 1; tl_num = fails ? num : 0; tl_den = den; }
void memDisarm() { tl_arm = 0; tl_num = 0; }
MemStats memStats() { return g_ms; }
}  // namespace sim

using namespace sim;
extern "C" {
void* malloc(size_t n) {
    if (!useArena()) return __libc_malloc(n);
    if (injectFail()) { errno = ENOMEM; return nullptr; }
    return arenaAlloc(n, 16);
}
void free(void* p) {
    if (!p) return;
    if (inArena(p)) arenaFree(p);
    else __libc_free(p);
}
void cfree(void* p) { free(p); }
void* calloc(size_t a, size_t b) {
    if (!useArena()) return __libc_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    if (injectFail()) { errno = ENOMEM; return nullptr; }
    void* p = arenaAlloc(n, 16);
    rawFill(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!inArena(p)) {
        return __libc_realloc(p, n);
    }
    if (n == 0) { free(p); return nullptr; }
    size_t old = hdr(p)->size;
    void* q;
    if (useArena()) {
        if (injectFail()) { errno = ENOMEM; return nullptr; }
        q = arenaAlloc(n, 16);
    } else {
        q = __libc_malloc(n);
    }
    rawCopy(q, p, old < n ? old : n);
    free(p);
    return q;
}
void* reallocarray(void* p, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return realloc(p, n);
}
void* memalign(size_t al, size_t n) {
    if (!useArena()) return __libc_memalign(al, n);
    if (injectFail()) { errno = ENOMEM; return nullptr; }
    return arenaAlloc(n, al);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
void* valloc(size_t n) { return memalign(4096, n); }
int posix_memalign(void** out, size_t al, size_t n) {
    void* p = memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
size_t malloc_usable_size(void* p) {
    if (!p) return 0;
    if (inArena(p)) return hdr(p)->size;
    return ((size_t*)p)[-1] & ~7ull;      // conservative is not needed outside the simulation
}
}

// Bulk accesses made through the C library are checked the same way.
extern "C" {
void* memcpy(void* d, const void* s, size_t n) {
    if (simulated() && n) { memAccess(s, n, false); memAccess(d, n, true); }
    rawCopy(d, s, n);
    return d;
}
void* memmove(void* d, const void* s, size_t n) {
    if (simulated() && n) { memAccess(s, n, false); memAccess(d, n, true); }
    if ((uint64_t)d - (uint64_t)s >= n) rawCopy(d, s, n);
    else { uint8_t* x = (uint8_t*)d; const uint8_t* y = (const uint8_t*)s; while (n--) { x[n] = y[n]; __asm__ volatile("" ::: "memory"); } }
    return d;
}
void* memset(void* d, int v, size_t n) {
    if (simulated() && n) memAccess(d, n, true);
    rawFill(d, v, n);
    return d;
}
}
