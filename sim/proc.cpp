// Process seam: no signal ever leaves the simulation, no command is ever run.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include "proc.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <map>
#include <vector>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

namespace sim {
namespace {
std::map<int, ProcState>* g_procs;
std::function<bool(const std::string&, std::string*, int*)>* g_popen;
struct Pipe { FILE* f; std::string data; size_t pos = 0; int status = 0; bool waited = false, closed = false; };
std::vector<Pipe*>* g_pipes;
ssize_t pRead(void* c, char* b, size_t n) {
    auto* p = (Pipe*)c;
    syncYield(50);
    if (choose(W, 4) == 1) sleepNs(1000000);             // the command takes its time
    if (faultRate("read_fail") && fault("read_fail", faultRate("read_fail"), 65536)) { errno = EIO; return -1; }
    size_t left = p->data.size() - p->pos;
    if (n > left) n = left;
    if (n > 1 && faultRate("short_read") && fault("short_read", faultRate("short_read"), 65536)) n = 1 + choose(F, (uint32_t)n - 1);
    memcpy(b, p->data.data() + p->pos, n);
    p->pos += n;
    return n;
}
int pClose(void* c) { ((Pipe*)c)->closed = true; return 0; }
}  // namespace
void procSet(int pid, ProcState s) { RtGuard g; if (!g_procs) g_procs = new std::map<int, ProcState>(); (*g_procs)[pid] = s; }
static int g_self = 4242;
static std::function<int()>*g_fork, *g_setsid;
static std::function<void(int)>* g_exit;
int procSelf() { return g_self; }
void procSetSelf(int pid) { g_self = pid; }
void onFork(std::function<int()> f, std::function<int()> s, std::function<void(int)> e) {
    RtGuard g;
    g_fork = new std::function<int()>(std::move(f)); g_setsid = new std::function<int()>(std::move(s)); g_exit = new std::function<void(int)>(std::move(e));
}
void onPopen(std::function<bool(const std::string&, std::string*, int*)> f) { RtGuard g; g_popen = new std::function<bool(const std::string&, std::string*, int*)>(std::move(f)); }
int popenUnwaited() { int n = 0; if (g_pipes) for (auto* p : *g_pipes) n += !p->waited; return n; }

// ---- signals
namespace {
struct Disp { void (*fn)(int, siginfo_t*, void*) = nullptr; void (*plain)(int) = nullptr; bool ign = false, nodefer = false; sigset_t mask; bool own() const { return fn || plain; } };
Disp g_disp[65];
bool g_noFault;                                         // signal() does not fail
struct Sched { int sig, steps, pid, uid; };
std::vector<Sched>* g_sched;
SigEvents* g_ev;
constexpr int kThr = 256;
struct PerThr { sigset_t blocked; bool init = false; siginfo_t pend[65]; bool has[65] = {}; };
PerThr* g_pt[kThr];
PerThr& pt() {
    int t = tid();
    if (!g_pt[t]) { RtGuard g; g_pt[t] = new PerThr(); sigemptyset(&g_pt[t]->blocked); }
    return *g_pt[t];
}
bool defaultIgnores(int s) { return s == SIGCHLD || s == SIGURG || s == SIGWINCH || s == SIGCONT; }
void act(int sig, siginfo_t si) {
    auto& p = pt();
    if (sigismember(&p.blocked, sig)) { p.pend[sig] = si; p.has[sig] = true; return; }
    Disp d = g_disp[sig];
    if (d.ign) { RtGuard g; if (g_ev && g_ev->ignored) g_ev->ignored(sig, si.si_pid); return; }
    if (!d.own()) {
        if (defaultIgnores(sig)) return;
        RtGuard g;
        if (g_ev && g_ev->death) g_ev->death(sig);
        violation("the process was ended by signal %d", sig);
    }
    sigset_t old = p.blocked;
    sigorset(&p.blocked, &p.blocked, &d.mask);
    if (!d.nodefer) sigaddset(&p.blocked, sig);
    { RtGuard g; if (g_ev && g_ev->before) g_ev->before(sig, si.si_pid); }
    int e = errno;
    if (d.fn) d.fn(sig, &si, nullptr); else d.plain(sig);
    errno = e;
    { RtGuard g; if (g_ev && g_ev->after) g_ev->after(sig, si.si_pid); }
    p.blocked = old;
    for (int s = 1; s <= 64; ++s) if (p.has[s] && !sigismember(&p.blocked, s)) { p.has[s] = false; siginfo_t x = p.pend[s]; act(s, x); }
}
void hook() {
    Sched due{0, 0, 0, 0};
    {
        RtGuard g;
        for (size_t i = 0; i < g_sched->size(); ++i) {
            auto& x = (*g_sched)[i];
            if (!g_disp[x.sig].own() && !g_disp[x.sig].ign) continue;
            if (x.steps-- > 0 || due.sig) continue;
            due = x;
            g_sched->erase(g_sched->begin() + i);
            break;
        }
    }
    if (due.sig) sigDeliver(due.sig, due.pid, due.uid);
}
}  // namespace
void sigDeliver(int sig, int pid, int uid) {
    siginfo_t si; memset(&si, 0, sizeof si);
    si.si_signo = sig; si.si_pid = pid; si.si_uid = uid; si.si_code = SI_USER;
    hashMix(0x516000u + sig);
    note("signal %d from %d", sig, pid);
    act(sig, si);
}
void sigSchedule(int sig, int steps, int pid, int uid) {
    RtGuard g;
    if (!g_sched) g_sched = new std::vector<Sched>();
    g_sched->push_back({sig, steps, pid, uid});
    g_stepHook = hook;
}
int sigScheduled() { return g_sched ? (int)g_sched->size() : 0; }
void onSignals(SigEvents e) { RtGuard g; g_ev = new SigEvents(std::move(e)); }
}  // namespace sim
using namespace sim;
#define SIMD (simulated() && tid() >= 0)

extern "C" {
pid_t fork() {
    static auto real = (pid_t (*)())dlsym(RTLD_NEXT, "fork");
    if (!SIMD) return real();
    syncYield(56);
    if (!g_fork) violation("a process was forked");
    return (*g_fork)();
}
pid_t setsid() {
    if (!SIMD) return (pid_t)syscall(SYS_setsid);
    syncYield(57);
    return g_setsid ? (*g_setsid)() : procSelf();
}
int dup2(int from, int to) {
    static auto real = (int (*)(int, int))dlsym(RTLD_NEXT, "dup2");
    if (SIMD && faultRate("dup2_fail") && fault("dup2_fail", faultRate("dup2_fail"), 65536)) { errno = choose(F, 2) ? EBUSY : EINTR; return -1; }
    return real(from, to);
}
void exit(int st) {
    static auto real = (void (*)(int))dlsym(RTLD_NEXT, "exit");
    if (SIMD && g_exit) (*g_exit)(st);
    real(st);
    __builtin_unreachable();
}
void _exit(int st) {
    if (SIMD && g_exit) (*g_exit)(st);
    for (;;) syscall(SYS_exit_group, st);
}
pid_t getpid() { return SIMD ? procSelf() : (pid_t)syscall(SYS_getpid); }
int kill(pid_t pid, int sig) {
    if (!SIMD) return (int)syscall(SYS_kill, pid, sig);
    syncYield(51);
    if (sig != 0) violation("signal %d would have been sent to process %d", sig, pid);
    if (pid <= 0) violation("a whole group of processes (%d) was asked for instead of one", pid);
    if (faultRate("kill_fail") && fault("kill_fail", faultRate("kill_fail"), 65536)) { errno = EINVAL; return -1; }
    ProcState s = pid == procSelf() ? PROC_ALIVE : g_procs && g_procs->count(pid) ? (*g_procs)[pid] : PROC_GONE;
    if (s == PROC_ALIVE) return 0;
    errno = s == PROC_GONE ? ESRCH : EPERM;
    return -1;
}
FILE* popen(const char* cmd, const char* mode) {
    static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "popen");
    if (!SIMD) return real(cmd, mode);
    syncYield(52);
    if (faultRate("popen_fail") && fault("popen_fail", faultRate("popen_fail"), 65536)) { errno = choose(F, 2) ? EMFILE : EAGAIN; return nullptr; }
    RtGuard g;
    auto* p = new Pipe();
    if (mode[0] != 'r' || !g_popen || !(*g_popen)(cmd, &p->data, &p->status)) { delete p; errno = ENOENT; return nullptr; }
    cookie_io_functions_t io = {pRead, nullptr, nullptr, pClose};
    p->f = fopencookie(p, "r", io);
    if (!g_pipes) g_pipes = new std::vector<Pipe*>();
    g_pipes->push_back(p);
    return p->f;
}
int pclose(FILE* f) {
    static auto real = (int (*)(FILE*))dlsym(RTLD_NEXT, "pclose");
    if (!SIMD) return real(f);
    syncYield(53);
    if (g_pipes) for (auto* p : *g_pipes) if (p->f == f && !p->waited) {
        p->waited = true;
        { RtGuard g; fclose(f); }
        if (faultRate("pclose_fail") && fault("pclose_fail", faultRate("pclose_fail"), 65536)) { errno = ECHILD; return -1; }
        return p->status;
    }
    violation("a stream that no command feeds was given to pclose()");
}

int sigaction(int sig, const struct sigaction* a, struct sigaction* old) {
    static auto real = (int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction");
    if (!SIMD) return real(sig, a, old);
    syncYield(54);
    if (sig < 1 || sig > 64 || (a && (sig == SIGKILL || sig == SIGSTOP))) { errno = EINVAL; return -1; }
    if (a && !(g_noFault) && faultRate("sigaction_fail") && fault("sigaction_fail", faultRate("sigaction_fail"), 65536)) { errno = choose(F, 2) ? EINVAL : EFAULT; return -1; }
    {
        RtGuard g;
        Disp& d = g_disp[sig];
        if (old) { memset(old, 0, sizeof *old); old->sa_mask = d.mask; if (d.fn) { old->sa_sigaction = d.fn; old->sa_flags = SA_SIGINFO; } else old->sa_handler = d.ign ? SIG_IGN : d.plain ? d.plain : SIG_DFL; }
        if (a) {
            d = Disp();
            d.mask = a->sa_mask;
            d.nodefer = a->sa_flags & SA_NODEFER;
            if (a->sa_flags & SA_SIGINFO) d.fn = a->sa_sigaction;
            else if (a->sa_handler == SIG_IGN) d.ign = true;
            else if (a->sa_handler != SIG_DFL) d.plain = a->sa_handler;
        }
    }
    syncYield(54);
    return 0;
}
sighandler_t signal(int sig, sighandler_t h) {
    static auto real = (sighandler_t (*)(int, sighandler_t))dlsym(RTLD_NEXT, "signal");
    if (!SIMD) return real(sig, h);
    struct sigaction a, o;
    memset(&a, 0, sizeof a);
    a.sa_handler = h;
    g_noFault = true;
    int rc = sigaction(sig, &a, &o);
    g_noFault = false;
    if (rc != 0) return SIG_ERR;
    return o.sa_handler;
}
static int sigMask(int how, const sigset_t* set, sigset_t* old) {
    syncYield(55);
    auto& p = pt();
    if (old) *old = p.blocked;
    if (set) {
        if (how == SIG_BLOCK) sigorset(&p.blocked, &p.blocked, set);
        else if (how == SIG_SETMASK) p.blocked = *set;
        else for (int s = 1; s <= 64; ++s) if (sigismember(set, s)) sigdelset(&p.blocked, s);
        for (int s = 1; s <= 64; ++s) if (p.has[s] && !sigismember(&p.blocked, s)) { p.has[s] = false; siginfo_t x = p.pend[s]; act(s, x); }
    }
    return 0;
}
int sigprocmask(int how, const sigset_t* set, sigset_t* old) {
    static auto real = (int (*)(int, const sigset_t*, sigset_t*))dlsym(RTLD_NEXT, "sigprocmask");
    return SIMD ? sigMask(how, set, old) : real(how, set, old);
}
int pthread_sigmask(int how, const sigset_t* set, sigset_t* old) {
    static auto real = (int (*)(int, const sigset_t*, sigset_t*))dlsym(RTLD_NEXT, "pthread_sigmask");
    return SIMD ? sigMask(how, set, old) : real(how, set, old);
}
int raise(int sig) {
    if (!SIMD) return (int)syscall(SYS_tgkill, (long)syscall(SYS_getpid), (long)syscall(SYS_gettid), (long)sig);
    sigDeliver(sig, procSelf(), 0);
    return 0;
}
}
