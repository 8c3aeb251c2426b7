// Descriptors one can wait on: eventfd, epoll, poll.  The objects are the
// kernel's; the waiting, its time limits and its interruptions are simulated.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include "simfs.h"
#include <cerrno>
#include <cstdarg>
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
namespace {
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8) : "rcx", "r11", "memory");
    return ret;
}
long fin(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
constexpr int kMax = 4096;
bool g_io[kMax];
int g_ioOpen;
char g_ioObj;
bool rate(const char* n) { uint32_t r = faultRate(n); return r && fault(n, r, 65536); }
int reg(long fd) { if (fd >= 0 && fd < kMax) { g_io[fd] = true; ++g_ioOpen; } return (int)fd; }
}  // namespace
bool ioFd(int fd) { return fd >= 0 && fd < kMax && g_io[fd]; }
int ioOpenFds() { return g_ioOpen; }
void ioClosed(int fd) { if (ioFd(fd)) { g_io[fd] = false; --g_ioOpen; wakeAll(&g_ioObj); } }
void ioWoke() { wakeAll(&g_ioObj); }
ssize_t ioWrite(int fd, const void* b, size_t n) {
    syncYield(60);
    long r = fin(raw(SYS_write, fd, (long)b, n));
    { RtGuard g; wakeAll(&g_ioObj); }
    syncYield(61);
    return r;
}
ssize_t ioRead(int fd, void* b, size_t n) {
    syncYield(62);
    long r = fin(raw(SYS_read, fd, (long)b, n));
    { RtGuard g; wakeAll(&g_ioObj); }
    return r;
}
// Runs `now` (a non-blocking attempt: >0 ready, 0 nothing, <0 error) until it says something.
template <class F> static int waitIo(F now, int timeoutMs) {
    syncYield(63);
    int64_t dl = timeoutMs < 0 ? -1 : monoNs() + (int64_t)timeoutMs * 1000000;
    if (timeoutMs != 0 && rate("wait_eintr")) { errno = EINTR; return -1; }
    for (;;) {
        long r = now();
        if (r != 0) return (int)fin(r);
        if (timeoutMs == 0 || (dl >= 0 && monoNs() >= dl)) return 0;
        blockOn(&g_ioObj, dl);
    }
}
}  // namespace sim
using namespace sim;
#define SIMD (simulated() && tid() >= 0)

extern "C" {
int eventfd(unsigned v, int fl) {
    if (SIMD) { syncYield(64); if (rate("eventfd_fail")) { errno = choose(F, 2) ? ENFILE : EMFILE; return -1; } }
    RtGuard g;
    return reg(fin(raw(SYS_eventfd2, v, fl)));
}
int eventfd_write(int fd, eventfd_t v) { return write(fd, &v, sizeof v) == sizeof v ? 0 : -1; }
int eventfd_read(int fd, eventfd_t* v) { return read(fd, v, sizeof *v) == sizeof *v ? 0 : -1; }
int epoll_create1(int fl) {
    if (SIMD) { syncYield(65); if (rate("epoll_create_fail")) { errno = EMFILE; return -1; } }
    RtGuard g;
    return reg(fin(raw(SYS_epoll_create1, fl)));
}
int epoll_create(int) { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event* e) {
    if (SIMD) syncYield(66);
    int r = (int)fin(raw(SYS_epoll_ctl, ep, op, fd, (long)e));
    if (SIMD) { RtGuard g; wakeAll(&g_ioObj); }
    return r;
}
int epoll_wait(int ep, struct epoll_event* ev, int n, int tmo) {
    if (!SIMD) return (int)fin(raw(SYS_epoll_wait, ep, (long)ev, n, tmo));
    return waitIo([=] { return raw(SYS_epoll_wait, ep, (long)ev, n, 0); }, tmo);
}
int epoll_pwait(int ep, struct epoll_event* ev, int n, int tmo, const sigset_t*) { return epoll_wait(ep, ev, n, tmo); }
int epoll_pwait2(int ep, struct epoll_event* ev, int n, const struct timespec* ts, const sigset_t*) {
    return epoll_wait(ep, ev, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1);
}
int poll(struct pollfd* p, nfds_t n, int tmo) {
    if (!SIMD) return (int)fin(raw(SYS_poll, (long)p, n, tmo));
    return waitIo([=] { return raw(SYS_poll, (long)p, n, 0); }, tmo);
}
}
