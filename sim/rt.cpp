// Deterministic simulation runtime: scheduler, virtual clock, choice streams
// and the pthread/libc seams.  Threads of the code under test are real threads,
// but exactly one of them runs at any moment and this scheduler decides which.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

namespace sim {

Result* R = nullptr;
bool g_active = false;
static uint64_t g_bulkRandom = 0;
__thread int tl_rt = 0;
__thread int tl_nop = 0;

namespace {

// ---------------------------------------------------------------- PRNG ----
struct Prng {
    uint64_t s;
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};

struct Stream {
    Prng prng;
    uint32_t idx = 0;
    uint32_t rp = 0, rend = 0;           // replay cursor
};

enum TState : int { T_RUN = 0, T_BLOCK = 1, T_DONE = 2 };

struct Thr {
    int id;
    pthread_t real;
    std::atomic<int> go{0};
    TState state = T_RUN;
    const void* obj = nullptr;
    int64_t deadline = -1;
    WakeReason reason = WK_SIGNAL;
    int32_t prio = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    bool detached = false;
    int exitRounds = 0;
    uint32_t slice = 0;                  // consecutive steps without giving way
};

constexpr int kMaxThr = 512;
Thr* g_thr[kMaxThr];
int g_nthr = 0;
__thread Thr* tl_me = nullptr;

struct {
    Stream st[NK];
    bool replay = false;
    bool trace = false;
    const Choice* rc = nullptr;
    bool faults = true;
    bool noSkips = false;
    int64_t mono = 0, monoStart = 0, stolen = 0, tscBack = 0;
    int64_t realOff = 0;
    int64_t clockLimit = 3600LL * 1000000000LL;
    uint64_t steps = 0;
    uint64_t stepLimit = 6000000;
    uint64_t tscHz = 2400000000ull, tscBase = 1000000;
    // strategy (drives the pseudo-random choices only; a replay does not use it)
    int strat = 0;
    uint32_t pSync = 4096, pMem = 0;     // of 65536
    uint32_t pJump = 0;
    uint32_t pSpur = 0, pStall = 0;
    uint64_t changeAt[8];
    int nChange = 0;
    int nextLow = -1;
    std::function<void()> onDeadlock;
    pthread_key_t exitKey;
    bool ending = false;
} G;

// ------------------------------------------------------- object tables ----
// Small open-addressing map keyed by address; value types are local so that no
// template instantiation is shared with instrumented code.
template <class V>
struct AddrMap {
    struct E { const void* k; V v; };
    E* tab = nullptr;
    size_t cap = 0, n = 0, tomb = 0;
    static size_t h(const void* p) { uint64_t x = (uint64_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 29; return x; }
    V* find(const void* k) {
        if (!cap) return nullptr;
        for (size_t i = h(k) & (cap - 1);; i = (i + 1) & (cap - 1)) {
            if (tab[i].k == k) return &tab[i].v;
            if (tab[i].k == nullptr) return nullptr;
        }
    }
    void grow() {
        size_t oc = cap; E* ot = tab;
        cap = cap ? ((n * 4 > cap) ? cap * 2 : cap) : 256;
        tab = (E*)calloc(cap, sizeof(E));
        n = 0; tomb = 0;
        for (size_t i = 0; i < oc; ++i)
            if (ot[i].k && ot[i].k != (void*)1) *get(ot[i].k) = ot[i].v;
        free(ot);
    }
    V* get(const void* k) {
        if (V* v = find(k)) return v;
        if ((n + tomb + 1) * 2 > cap) grow();
        size_t i = h(k) & (cap - 1);
        while (tab[i].k != nullptr) i = (i + 1) & (cap - 1);
        tab[i].k = k; memset((void*)&tab[i].v, 0, sizeof(V)); ++n;
        return &tab[i].v;
    }
    void erase(const void* k) {
        if (!cap) return;
        for (size_t i = h(k) & (cap - 1);; i = (i + 1) & (cap - 1)) {
            if (tab[i].k == k) { tab[i].k = (void*)1; --n; ++tomb; return; }
            if (tab[i].k == nullptr) return;
        }
    }
};

struct Mtx { int owner1; int count; };                 // owner1 = tid+1
struct Rw { int writer1; int readers; };
struct OnceState { int state; };
struct SemState { int val; int init; };
AddrMap<Mtx> g_mtx;
AddrMap<Rw> g_rw;
AddrMap<OnceState> g_once;
AddrMap<SemState> g_sem;

// ------------------------------------------------------------ raw futex ---
long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

void batonWait(Thr* t) {
    while (t->go.load(std::memory_order_acquire) == 0)
        rawsys(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    t->go.store(0, std::memory_order_relaxed);
}
void batonPass(Thr* t) {
    t->go.store(1, std::memory_order_release);
    rawsys(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ------------------------------------------------------------- logging ----
void noteRaw(const char* s, size_t n) {
    if (!R) return;
    if (R->noteLen + n + 1 < kMaxNotes) {
        memcpy(R->notes + R->noteLen, s, n);
        R->noteLen += n;
        R->notes[R->noteLen++] = '\n';
    }
    if (G.trace) { ssize_t r = write(2, s, n); r = write(2, "\n", 1); (void)r; }
}

inline void mixHash(uint64_t& h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
}

void record(Kind k, uint32_t idx, uint32_t v) {
    if (v == 0) return;
    mixHash(R->hash, ((uint64_t)k << 56) ^ ((uint64_t)idx << 24) ^ v);
    if (R->nChoices < kMaxChoices) R->choices[R->nChoices++] = Choice{k, idx, v};
    else R->choiceOverflow = 1;
}

// replay lookup: the choices of one kind are consecutive and sorted by index
bool replayGet(Kind k, uint32_t idx, uint32_t* v) {
    Stream& s = G.st[k];
    while (s.rp < s.rend && G.rc[s.rp].idx < idx) ++s.rp;
    if (s.rp < s.rend && G.rc[s.rp].idx == idx) { *v = G.rc[s.rp].val; ++s.rp; return true; }
    *v = 0;
    return false;
}

uint32_t counterId(const char* name, bool isFault) {
    for (uint32_t i = 0; i < R->nCounters; ++i)
        if (!strncmp(R->cname[i], name, 39)) return i;
    if (R->nCounters >= kMaxCounters) return kMaxCounters - 1;
    uint32_t i = R->nCounters++;
    strncpy(R->cname[i], name, 39);
    R->cfault[i] = isFault;
    return i;
}

// ------------------------------------------------------------ scheduler ---
void expireDeadlines() {
    for (int i = 0; i < g_nthr; ++i) {
        Thr* t = g_thr[i];
        if (t->state == T_BLOCK && t->deadline >= 0 && t->deadline <= G.mono) {
            t->state = T_RUN; t->reason = WK_TIMEOUT; t->obj = nullptr; t->deadline = -1;
        }
    }
}

void describeThreads(char* buf, size_t n) {
    size_t p = 0;
    for (int i = 0; i < g_nthr && p + 40 < n; ++i) {
        Thr* t = g_thr[i];
        if (t->state == T_DONE) continue;
        p += snprintf(buf + p, n - p, " t%d:%s", i, t->state == T_RUN ? "run" : (t->deadline >= 0 ? "timed-wait" : "blocked"));
    }
    if (p == 0) buf[0] = 0;
}

// Picks the next thread to run; `me' may be blocked/done.  Never returns null.
Thr* pick(Thr* me, bool mem) {
    for (;;) {
        Thr* cand[kMaxThr];
        int n = 0;
        bool meRun = me && me->state == T_RUN;
        bool rotate = meRun && me->slice > 20000;
        if (meRun && !rotate) cand[n++] = me;
        if (rotate) {
            // forced fairness: everybody else first, starting after me
            for (int d = 1; d <= g_nthr; ++d) {
                Thr* t = g_thr[(me->id + d) % g_nthr];
                if (t->state == T_RUN && t != me) cand[n++] = t;
            }
            cand[n++] = me;
            me->slice = 0;
        } else {
            for (int i = 0; i < g_nthr; ++i) {
                Thr* t = g_thr[i];
                if (t->state == T_RUN && t != me) cand[n++] = t;
            }
        }
        if (n == 0) {
            int64_t best = -1;
            for (int i = 0; i < g_nthr; ++i) {
                Thr* t = g_thr[i];
                if (t->state == T_BLOCK && t->deadline >= 0 && (best < 0 || t->deadline < best)) best = t->deadline;
            }
            if (best < 0) {
                char d[512]; describeThreads(d, sizeof d);
                if (G.onDeadlock) { auto f = G.onDeadlock; G.onDeadlock = nullptr; f(); }
                violation("deadlock: no thread can make progress and no timer is pending;%s", d);
            }
            if (best > G.mono) { G.mono = best; }
            if (G.mono > G.clockLimit) {
                char d[512]; describeThreads(d, sizeof d);
                violation("no progress: scenario did not finish by virtual time %lld ms;%s",
                          (long long)((G.clockLimit - G.monoStart) / 1000000), d);
            }
            R->timeJumps++;
            expireDeadlines();
            continue;
        }
        if (n == 1) return cand[0];
        // one scheduling decision
        Stream& s = G.st[S];
        uint32_t idx = s.idx++, v = 0;
        if (G.replay) {
            replayGet(S, idx, &v);
            v %= n;
        } else if (G.strat == 2) {                       // PCT: highest priority runs
            int b = 0;
            for (int i = 1; i < n; ++i) if (cand[i]->prio > cand[b]->prio) b = i;
            v = b;
            if (rotate) v = 0;
        } else {
            uint64_t r = s.prng.next();
            uint32_t p = mem ? G.pMem : G.pSync;
            if (G.steps > 2000000) p = p < 8192 ? 8192 : p;
            if (!meRun || (r & 0xffff) < p) {
                if (meRun && G.strat != 3) v = 1 + (r >> 20) % (n - 1);
                else v = (r >> 20) % n;
            }
        }
        record(S, idx, v);
        if (v && meRun && cand[v] != me) R->preemptions++;
        return cand[v];
    }
}

void switchTo(Thr* me, Thr* nx) {
    if (nx == me) return;
    R->switches++;
    mixHash(R->hash, 0x51u + nx->id);
    mixHash(R->schedHash, nx->id + 1);
    nx->slice = 0;
    batonPass(nx);
    if (me) batonWait(me);
}

void reschedule(bool mem) {
    Thr* me = tl_me;
    Thr* nx = pick(me, mem);
    switchTo(me, nx);
}

void stepCommon(int64_t ns) {
    G.steps++;
    G.mono += ns;
    Thr* me = tl_me;
    me->slice++;
    R->steps = G.steps;
    R->vtimeNs = G.mono - G.monoStart;
    if (G.steps > G.stepLimit) {
        char d[512]; describeThreads(d, sizeof d);
        violation("no progress: scenario did not finish within %llu steps;%s", (unsigned long long)G.stepLimit, d);
    }
    if (!G.replay && G.strat == 2 && G.nChange > 0 && G.steps >= G.changeAt[G.nChange - 1]) {
        G.nChange--;
        me->prio = G.nextLow--;
    }
}

int64_t tsToNs(const struct timespec* ts) { return ts->tv_sec * 1000000000LL + ts->tv_nsec; }

void* exitKeyTouch;
void exitKeyDtor(void* p) {
    Thr* t = (Thr*)p;
    if (t->exitRounds++ < 2) { pthread_setspecific(G.exitKey, t); return; }
    ++tl_rt;                              // stays in the runtime for good
    t->state = T_DONE;
    wakeAll(t);
    mixHash(R->hash, 0xdead0000u + t->id);
    Thr* nx = pick(t, false);
    R->switches++;
    mixHash(R->schedHash, nx->id + 1);
    mixHash(R->hash, 0x51u + nx->id);
    tl_me = nullptr;
    batonPass(nx);
}

void* trampoline(void* p) {
    Thr* t = (Thr*)p;
    ++tl_rt;
    tl_me = t;
    batonWait(t);
    pthread_setspecific(G.exitKey, t);
    // a trapped TSC is a per-thread setting inherited on clone
    --tl_rt;
    return t->fn(t->arg);
}

template <class F>
F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*real_pthread_join)(pthread_t, void**);
int (*real_pthread_detach)(pthread_t);

__attribute__((constructor(101))) void initReal() {
    real_pthread_create = real<decltype(real_pthread_create)>("pthread_create");
    real_pthread_join = real<decltype(real_pthread_join)>("pthread_join");
    real_pthread_detach = real<decltype(real_pthread_detach)>("pthread_detach");
}

Thr* findThr(pthread_t p) {
    for (int i = g_nthr - 1; i >= 0; --i)
        if (g_thr[i]->real == p && !(g_thr[i]->state == T_DONE && g_thr[i]->detached)) return g_thr[i];
    return nullptr;
}

}  // namespace

// ------------------------------------------------------------ public ------
void hashMix(uint64_t v) { mixHash(R->hash, v); }

uint32_t choose(Kind k, uint32_t n) {
    if (n <= 1) return 0;
    RtGuard g;
    Stream& s = G.st[k];
    uint32_t idx = s.idx++, v;
    if (G.replay) { replayGet(k, idx, &v); v %= n; }
    else v = (uint32_t)((s.prng.next() >> 11) % n);
    record(k, idx, v);
    return v;
}

bool chance(Kind k, uint32_t num, uint32_t den) {
    RtGuard g;
    Stream& s = G.st[k];
    uint32_t idx = s.idx++, v;
    if (G.replay) { replayGet(k, idx, &v); v = v != 0; }
    else v = (s.prng.next() >> 11) % den < num;
    record(k, idx, v);
    return v;
}

int64_t range(Kind k, int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    uint64_t span = (uint64_t)(hi - lo) + 1;
    if (span <= 0xffffffffull) return lo + choose(k, (uint32_t)span);
    uint64_t a = choose(k, 0x40000000u), b = choose(k, 0x40000000u);
    return lo + (int64_t)(((a << 30) | b) % span);
}

bool fault(const char* name, uint32_t num, uint32_t den) {
    if (!G.faults || num == 0) return false;
    if (!chance(F, num, den)) return false;
    RtGuard g;
    R->cval[counterId(name, true)]++;
    if (R->failStop[0] && !strcmp(R->failStop, name)) R->abortOk = 1;
    note("fault %s", name);
    return true;
}

void count(const char* name, uint64_t by) { RtGuard g; R->cval[counterId(name, false)] += by; }
uint64_t faultCount(const char* name) { for (uint32_t i = 0; i < R->nCounters; ++i) if (!strcmp(R->cname[i], name)) return R->cval[i]; return 0; }
void failStopAfter(const char* name) { strncpy(R->failStop, name, sizeof R->failStop - 1); }
bool faultsOn() { return G.faults; }
void setBulkRandom(uint64_t seed) { g_bulkRandom = seed ? seed : 1; }
void setSkips(bool on) { RtGuard g; G.noSkips = !on; mixHash(R->hash, 0xfb00 + on); }
void setFaults(bool on) { RtGuard g; G.faults = on && R->faults; mixHash(R->hash, 0xfa00 + on); }

void note(const char* fmt, ...) {
    RtGuard g;
    char b[1024];
    int p = snprintf(b, sizeof b, "[%lld.%06lld t%d] ", (long long)((G.mono - G.monoStart) / 1000000000), (long long)((G.mono - G.monoStart) / 1000 % 1000000), tl_me ? tl_me->id : -1);
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b + p, sizeof b - p, fmt, ap);
    va_end(ap);
    size_t len = p + (n < 0 ? 0 : n); if (len >= sizeof b) len = sizeof b - 1;
    for (size_t i = p; i < len; ++i) { R->hash = (R->hash ^ (unsigned char)b[i]) * 0x100000001b3ull; }
    noteRaw(b, len);
}

void endRun(Status st) {
    ++tl_rt;
    R->steps = G.steps;
    R->vtimeNs = G.mono - G.monoStart;
    if (R->status == ST_NONE) R->status = st;
    rawsys(SYS_exit_group, st == ST_PASS ? 0 : 10 + st);
    __builtin_unreachable();
}

static void setMsg(const char* fmt, va_list ap) {
    if (R->status != ST_NONE) return;
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    for (const char* p = R->msg; *p; ++p) R->hash = (R->hash ^ (unsigned char)*p) * 0x100000001b3ull;
    noteRaw(R->msg, strlen(R->msg));
}

void violation(const char* fmt, ...) {
    ++tl_rt;
    va_list ap; va_start(ap, fmt); setMsg(fmt, ap); va_end(ap);
    endRun(ST_VIOLATION);
}
void harnessError(const char* fmt, ...) {
    ++tl_rt;
    va_list ap; va_start(ap, fmt); setMsg(fmt, ap); va_end(ap);
    endRun(ST_HARNESS);
}
void knownFinding(const char* id, const char* fmt, ...) {
    ++tl_rt;
    char b[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    snprintf(R->msg, sizeof R->msg, "%s|%s", id, b);
    endRun(ST_KNOWN);
}
void finishPass() { endRun(ST_PASS); }

int64_t monoNs() { return G.mono; }
int64_t realNs() { return G.mono + G.realOff; }
void stepRealtime(int64_t d) { RtGuard g; G.realOff += d; note("fault wall_clock_step %lld ns", (long long)d); R->cval[counterId("wall_clock_step", true)]++; }
void setClockLimitNs(int64_t l) { G.clockLimit = G.mono + l; }
void setTscHz(uint64_t hz, uint64_t base) { G.tscHz = hz; G.tscBase = base; }
void setTscBack(int64_t ns) { G.tscBack = ns; }
int64_t stolenNs() { return G.stolen; }
uint64_t tsc() { return G.tscBase + (uint64_t)((unsigned __int128)(G.mono - G.tscBack) * G.tscHz / 1000000000u); }
uint64_t stepCount() { return G.steps; }

WakeReason blockOn(const void* obj, int64_t deadline) {
    Thr* me = tl_me;
    me->state = T_BLOCK; me->obj = obj; me->deadline = deadline; me->reason = WK_SIGNAL;
    me->slice = 0;
    reschedule(false);
    return me->reason;
}

int wakeAll(const void* obj) {
    int n = 0;
    for (int i = 0; i < g_nthr; ++i) {
        Thr* t = g_thr[i];
        if (t->state == T_BLOCK && t->obj == obj) { t->state = T_RUN; t->reason = WK_SIGNAL; t->obj = nullptr; t->deadline = -1; ++n; }
    }
    return n;
}

bool wakeOne(const void* obj) {
    Thr* w[kMaxThr]; int n = 0;
    for (int i = 0; i < g_nthr; ++i) {
        Thr* t = g_thr[i];
        if (t->state == T_BLOCK && t->obj == obj) w[n++] = t;
    }
    if (!n) return false;
    Thr* t = w[n > 1 ? choose(S, n) : 0];
    t->state = T_RUN; t->reason = WK_SIGNAL; t->obj = nullptr; t->deadline = -1;
    return true;
}

void sleepNs(int64_t ns) {
    RtGuard g;
    if (!tl_me) { G.mono += ns; return; }
    stepCommon(200);
    if (!G.replay && G.strat == 2) tl_me->prio = G.nextLow--;
    if (ns <= 0) { reschedule(false); return; }
    static char sleepObj;
    blockOn(&sleepObj, G.mono + ns);
}

// Signals arrive between any two steps of a thread.
void (*g_stepHook)();
static void stepHook() {
    if (__builtin_expect(g_stepHook == nullptr, 1) || tl_rt != 1 || tl_nop || !tl_me) return;
    --tl_rt;
    g_stepHook();
    ++tl_rt;
}

void memYield() {
    if (tl_nop) return;
    RtGuard g;
    if (!tl_me) return;
    stepCommon(2);
    // fast path: nobody else could run
    reschedule(true);
    stepHook();
}

void syncYield(int op) {
    RtGuard g;
    if (!tl_me) return;
    stepCommon(150);
    R->syncSteps++;
    mixHash(R->schedHash, (uint64_t)op << 8 | tl_me->id);
    if (tl_nop) return;
    {
        // the machine is slow: time passes while this thread is on its way
        Stream& s = G.st[T];
        uint32_t idx = s.idx++, v = 0;
        if (G.noSkips) ;
        else if (G.replay) replayGet(T, idx, &v);
        else if ((s.prng.next() & 0xffff) < G.pJump) { uint64_t r = s.prng.next(); v = 1u + (uint32_t)(r % (1u << (4 + (r >> 40) % 18))); }
        if (v) { record(T, idx, v); G.mono += (int64_t)v * 1000; G.stolen += (int64_t)v * 1000; expireDeadlines(); R->cval[counterId("time_skip", true)]++; }
    }
    if (G.faults) {
        Stream& s = G.st[F];
        uint32_t idx = s.idx++, v = 0;
        if (G.replay) replayGet(F, idx, &v);
        else if ((s.prng.next() & 0xffff) < G.pStall) { uint64_t r = s.prng.next(); v = 1u + (uint32_t)(r % (1u << (2 + (r >> 40) % 20))); }
        if (v) {
            record(F, idx, v);
            R->cval[counterId("thread_stall", true)]++;
            G.stolen += (int64_t)v * 1000;
            note("fault thread_stall %u us", v);
            static char stallObj;
            blockOn(&stallObj, G.mono + (int64_t)v * 1000);
            return;
        }
    }
    reschedule(false);
    stepHook();
}

static struct { const char* n; uint32_t r; } g_rates[64];
static int g_nrates = 0;
void setFaultRate(const char* name, uint32_t r) {
    for (int i = 0; i < g_nrates; ++i) if (!strcmp(g_rates[i].n, name)) { g_rates[i].r = r; return; }
    if (g_nrates < 64) g_rates[g_nrates++] = {name, r};
}
uint32_t faultRate(const char* name) {
    for (int i = 0; i < g_nrates; ++i) if (!strcmp(g_rates[i].n, name)) return g_rates[i].r;
    return 0;
}

void yieldPoint() { if (simulated()) syncYield(1); }
int tid() { return tl_me ? tl_me->id : -1; }
int liveThreads() { int n = 0; for (int i = 0; i < g_nthr; ++i) n += g_thr[i]->state != T_DONE; return n; }
bool inSim() { return g_active; }
int threadState(int t) { return t < g_nthr ? g_thr[t]->state : 2; }
void onDeadlock(std::function<void()> fn) { RtGuard g; G.onDeadlock = std::move(fn); }
void violationPrefix(const char* s) { strncpy(R->prefix, s, sizeof R->prefix - 1); }
NoPreempt::NoPreempt() { ++tl_nop; }
NoPreempt::~NoPreempt() { --tl_nop; }

bool waitUntil(const std::function<bool()>& pred, int64_t timeoutNs) {
    int64_t end = G.mono + timeoutNs;
    int64_t d = 100000;
    for (;;) {
        { NoPreempt np; if (pred()) return true; }
        if (G.mono >= end) return false;
        sleepNs(d < end - G.mono ? d : end - G.mono);
        if (d < 50000000) d *= 2;
    }
}

// --------------------------------------------------------- TSC trapping ---
static void tscHandler(int, siginfo_t*, void* u) {
    auto* uc = (ucontext_t*)u;
    auto* ip = (const uint8_t*)uc->uc_mcontext.gregs[REG_RIP];
    int len = 0;
    // only look at the bytes when the fault is a general protection fault (no address)
    if (uc->uc_mcontext.gregs[REG_TRAPNO] == 13) {
        if (ip[0] == 0x0f && ip[1] == 0x31) len = 2;
        else if (ip[0] == 0x0f && ip[1] == 0x01 && ip[2] == 0xf9) len = 3;
    }
    if (!len) { RtGuard g; signal(SIGSEGV, SIG_DFL); return; }
    bool simd = g_active && tl_rt == 0 && tl_me;
    if (simd) { RtGuard g; stepCommon(20); }
    uint64_t c = tsc();
    uc->uc_mcontext.gregs[REG_RAX] = (uint32_t)c;
    uc->uc_mcontext.gregs[REG_RDX] = (uint32_t)(c >> 32);
    if (len == 3) uc->uc_mcontext.gregs[REG_RCX] = 0;
    uc->uc_mcontext.gregs[REG_RIP] += len;
    if (simd && !tl_nop) { RtGuard g; reschedule(false); }
}

void installTscTrap() {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = tscHandler;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    if (prctl(PR_SET_TSC, PR_TSC_SIGSEGV) != 0) harnessError("prctl(PR_SET_TSC) failed: %d", errno);
}

// -------------------------------------------------------------- run -------
void beginRun(const RunConfig& cfg) {
    ++tl_rt;
    R->seed = cfg.seed;
    R->hash = 0xcbf29ce484222325ull;
    R->schedHash = 0xcbf29ce484222325ull;
    R->faults = cfg.faults;
    G.replay = cfg.replay;
    G.trace = cfg.trace;
    G.faults = cfg.faults;
    G.rc = cfg.replayChoices;
    for (int k = 0; k < NK; ++k) {
        G.st[k].prng.s = cfg.seed * 0x9e3779b97f4a7c15ull + 0x1234567ull * (k + 1);
        G.st[k].prng.next();
        if (cfg.replay) {
            uint32_t b = 0;
            while (b < cfg.nReplay && cfg.replayChoices[b].kind != (uint32_t)k) ++b;
            uint32_t e = b;
            while (e < cfg.nReplay && cfg.replayChoices[e].kind == (uint32_t)k) ++e;
            G.st[k].rp = b; G.st[k].rend = e;
        }
    }
    // swarm configuration of the random search
    Prng p{cfg.seed ^ 0xabcdef12345ull};
    p.next();
    static const uint32_t ps[] = {65536, 32768, 16384, 8192, 4096, 1024};
    static const uint32_t pm[] = {0, 0, 64, 512, 2048, 8192, 16384};
    switch (p.next() % 8) {
        case 0: G.strat = 0; G.pSync = ps[p.next() % 6]; G.pMem = 0; break;
        case 1: case 2: case 3: G.strat = 0; G.pSync = ps[p.next() % 6]; G.pMem = pm[p.next() % 7]; break;
        case 4: case 5: {
            G.strat = 2;
            G.nextLow = -1;
            static const uint32_t ks[] = {50, 200, 1000, 5000, 30000};
            uint32_t K = ks[p.next() % 5];
            G.nChange = p.next() % 5;
            for (int i = 0; i < G.nChange; ++i) G.changeAt[i] = 1 + p.next() % K;
            for (int i = 0; i < G.nChange; ++i)                   // descending
                for (int j = i + 1; j < G.nChange; ++j)
                    if (G.changeAt[j] > G.changeAt[i]) { auto t = G.changeAt[i]; G.changeAt[i] = G.changeAt[j]; G.changeAt[j] = t; }
            break;
        }
        case 6: G.strat = 0; G.pSync = 65536; G.pMem = 32768; break;
        default: G.strat = 3; G.pSync = ps[p.next() % 6]; G.pMem = pm[p.next() % 7]; break;
    }
    static const uint32_t pj[] = {0, 0, 64, 512, 4096};
    G.pJump = pj[p.next() % 5];
    if (cfg.faults) {
        static const uint32_t psp[] = {0, 4096, 20000, 50000};
        static const uint32_t pst[] = {0, 0, 128, 1024};
        G.pSpur = psp[p.next() % 4];
        G.pStall = pst[p.next() % 4];
    }
    G.mono = 1000000000LL * 1000 + (int64_t)(p.next() % 1000000000);
    G.realOff = 1600000000LL * 1000000000LL + (int64_t)(p.next() % 1000000000000ull);
    if (cfg.replay) { /* clock origin is part of the seed */ }
    G.monoStart = G.mono;
    G.clockLimit = G.mono + 3600LL * 1000000000LL;

    pthread_key_create(&G.exitKey, exitKeyDtor);
    Thr* t = new Thr();
    t->id = 0; t->real = pthread_self();
    t->prio = 1000;
    g_thr[g_nthr++] = t;
    tl_me = t;
    G.onDeadlock = nullptr;
    g_active = true;
    --tl_rt;
}

uint32_t spurRate() { return G.pSpur; }
void lowerPriority() { if (tl_me && G.strat == 2 && !G.replay) tl_me->prio = G.nextLow--; }

}  // namespace sim

using namespace sim;

// ======================================================= libc seams =======
enum Op { OP_LOCK = 2, OP_UNLOCK, OP_TRYLOCK, OP_CWAIT, OP_CSIG, OP_CREATE, OP_JOIN, OP_YIELD, OP_RW, OP_ONCE, OP_FUTEX, OP_SEM, OP_CLOCK };

extern "C" {

// ---- mutex
static int mutexLock(pthread_mutex_t* m, int64_t deadline) {
    RtGuard g;
    int me1 = tid() + 1;
    Mtx* x = g_mtx.get(m);
    if (x->owner1 == me1) {
        int kind = m->__data.__kind & 3;
        if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { x->count++; return 0; }
        if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    while (x->owner1 != 0) {
        if (blockOn(m, deadline) == WK_TIMEOUT && g_mtx.get(m)->owner1 != 0) return ETIMEDOUT;
        x = g_mtx.get(m);
    }
    x->owner1 = me1; x->count = 1;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!simulated() || tid() < 0) return 0;
    syncYield(OP_LOCK);
    return mutexLock(m, -1);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!simulated() || tid() < 0) return 0;
    syncYield(OP_TRYLOCK);
    RtGuard g;
    Mtx* x = g_mtx.get(m);
    if (x->owner1 == 0) { x->owner1 = tid() + 1; x->count = 1; return 0; }
    if (x->owner1 == tid() + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x->count++; return 0; }
    return EBUSY;
}
static int64_t absToMono(clockid_t c, const struct timespec* ts) {
    int64_t t = tsToNs(ts);
    int64_t d = (c == CLOCK_MONOTONIC) ? t : t - (realNs() - monoNs());
    return d < 0 ? 0 : d;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if (!simulated() || tid() < 0) return 0;
    syncYield(OP_LOCK);
    return mutexLock(m, absToMono(CLOCK_REALTIME, ts));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
    if (!simulated() || tid() < 0) return 0;
    syncYield(OP_LOCK);
    return mutexLock(m, absToMono(c, ts));
}
static int mutexUnlock(pthread_mutex_t* m) {
    RtGuard g;
    Mtx* x = g_mtx.find(m);
    if (!x || x->owner1 == 0) return 0;
    if (--x->count > 0) return 0;
    g_mtx.erase(m);
    wakeAll(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!simulated() || tid() < 0) return 0;
    mutexUnlock(m);
    syncYield(OP_UNLOCK);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (simulated()) { RtGuard g; g_mtx.erase(m); }
    return 0;
}

// ---- condition variables
// A destroyed condition variable is remembered until a new one stands in its place:
// one that is alive holds nothing but zeros and its attributes.
struct DeadConds { static constexpr int N = 256; void* a[N]; int n; };
static DeadConds g_dead;
static void condAlive(pthread_cond_t* c, const char* what) {
    int i = 0;
    while (i < g_dead.n && g_dead.a[i] != c) i++;
    if (i == g_dead.n) return;
    pthread_cond_t x = *c, zero;
    memset(&zero, 0, sizeof zero);
    x.__data.__wrefs &= ~3u;
    if (memcmp(&x, &zero, sizeof x)) violation("%s of a condition variable that is already destroyed", what);
    g_dead.a[i] = g_dead.a[--g_dead.n];
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
    RtGuard g;
    Mtx* x = g_mtx.find(m);
    int cnt = x ? x->count : 1;
    int ret = 0;
    // Joining the wait queue and releasing the mutex are one atomic step.
    int64_t dl = deadline;
    bool spur = false;
    // a spurious wakeup after a drawn delay
    if (faultsOn() && chance(F, spurRate(), 65536)) {
        static const int64_t ds[] = {0, 1000, 50000, 3000000};
        int64_t at = monoNs() + ds[choose(F, 4)];
        if (dl < 0 || at < dl) { dl = at; spur = true; }
        R->cval[counterId("spurious_wakeup", true)]++;
        note("fault spurious_wakeup");
    }
    if (x) { g_mtx.erase(m); wakeAll(m); }
    WakeReason w = blockOn(c, dl);
    if (w == WK_TIMEOUT && !spur) ret = ETIMEDOUT;
    mutexLock(m, -1);
    if (Mtx* y = g_mtx.find(m)) y->count = cnt;
    return ret;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!simulated() || tid() < 0) return 0;
    syncYield(OP_CWAIT);
    condAlive(c, "a wait");
    return condWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!simulated() || tid() < 0) return 0;
    syncYield(OP_CWAIT);
    clockid_t clk = (c->__data.__wrefs & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME;
    return condWait(c, m, absToMono(clk, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
    if (!simulated() || tid() < 0) return 0;
    syncYield(OP_CWAIT);
    return condWait(c, m, absToMono(clk, ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!simulated() || tid() < 0) return 0;
    syncYield(OP_CSIG);
    condAlive(c, "a notification");
    { RtGuard g; wakeOne(c); }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!simulated() || tid() < 0) return 0;
    syncYield(OP_CSIG);
    condAlive(c, "a notification");
    { RtGuard g; wakeAll(c); }
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!simulated() || tid() < 0) return 0;
    memset((void*)c, 0xdc, sizeof *c);
    for (int i = 0; i < g_dead.n; i++) if (g_dead.a[i] == c) return 0;
    if (g_dead.n == DeadConds::N) memmove(g_dead.a, g_dead.a + 1, --g_dead.n * sizeof(void*));
    g_dead.a[g_dead.n++] = c;
    return 0;
}

// ---- rwlock
static int rwLock(pthread_rwlock_t* l, bool write, bool tryOnly, int64_t dl) {
    syncYield(OP_RW);
    RtGuard g;
    for (;;) {
        Rw* x = g_rw.get(l);
        if (write ? (x->writer1 == 0 && x->readers == 0) : x->writer1 == 0) {
            if (write) x->writer1 = tid() + 1; else x->readers++;
            return 0;
        }
        if (tryOnly) return EBUSY;
        if (x->writer1 == tid() + 1) return EDEADLK;
        if (blockOn(l, dl) == WK_TIMEOUT) return ETIMEDOUT;
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return simulated() && tid() >= 0 ? rwLock(l, false, false, -1) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return simulated() && tid() >= 0 ? rwLock(l, true, false, -1) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return simulated() && tid() >= 0 ? rwLock(l, false, true, -1) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return simulated() && tid() >= 0 ? rwLock(l, true, true, -1) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!simulated() || tid() < 0) return 0;
    {
        RtGuard g;
        if (Rw* x = g_rw.find(l)) {
            if (x->writer1) x->writer1 = 0; else if (x->readers > 0) x->readers--;
            if (!x->writer1 && !x->readers) g_rw.erase(l);
            wakeAll(l);
        }
    }
    syncYield(OP_RW);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (simulated()) { RtGuard g; g_rw.erase(l); } return 0; }

// ---- spin locks
int pthread_spin_lock(pthread_spinlock_t* l) { return simulated() && tid() >= 0 ? rwLock((pthread_rwlock_t*)l, true, false, -1) : 0; }
int pthread_spin_trylock(pthread_spinlock_t* l) { return simulated() && tid() >= 0 ? rwLock((pthread_rwlock_t*)l, true, true, -1) : 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { return pthread_rwlock_unlock((pthread_rwlock_t*)l); }

// ---- threads
int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!simulated() || tid() < 0) return real_pthread_create(th, a, fn, arg);
    syncYield(OP_CREATE);
    int rc;
    {
        RtGuard g;
        if (fault("thread_create_fail", faultRate("thread_create_fail"), 65536)) return EAGAIN;
        if (g_nthr >= kMaxThr) harnessError("too many threads");
        Thr* t = new Thr();
        t->id = g_nthr;
        t->fn = fn; t->arg = arg;
        if (!G.replay && G.strat == 2) t->prio = 1 + (int32_t)(G.st[S].prng.next() % 1000);
        int det = PTHREAD_CREATE_JOINABLE;
        if (a) pthread_attr_getdetachstate(a, &det);
        t->detached = det == PTHREAD_CREATE_DETACHED;
        rc = real_pthread_create(&t->real, a, trampoline, t);
        if (rc) harnessError("pthread_create failed for real: %d", rc);
        g_thr[g_nthr++] = t;
        *th = t->real;
        hashMix(0xc0de + t->id);
    }
    syncYield(OP_CREATE);
    return rc;
}
int pthread_join(pthread_t th, void** ret) {
    if (!simulated() || tid() < 0) return real_pthread_join(th, ret);
    syncYield(OP_JOIN);
    RtGuard g;
    Thr* t = findThr(th);
    if (!t) harnessError("join of an unknown thread");
    if (t == tl_me) return EDEADLK;
    while (t->state != T_DONE) blockOn(t, -1);
    t->detached = true;
    return real_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) {
    if (!simulated() || tid() < 0) return real_pthread_detach(th);
    {
        RtGuard g;
        if (Thr* t = findThr(th)) t->detached = true;
        real_pthread_detach(th);
    }
    syncYield(OP_JOIN);
    return 0;
}

// ---- once / static initialisation guards
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!simulated() || tid() < 0) {
        if (*o == 2) return 0;
        *o = 1; fn(); *o = 2;
        return 0;
    }
    if (*o == 2) return 0;
    syncYield(OP_ONCE);
    {
        RtGuard g;
        for (;;) {
            if (*o == 2) return 0;
            OnceState* s = g_once.get(o);
            if (s->state == 0) { s->state = 1; break; }
            blockOn(o, -1);
        }
    }
    try {
        fn();
    } catch (...) {
        RtGuard g; g_once.erase(o); wakeAll(o);
        throw;
    }
    RtGuard g;
    *o = 2;
    g_once.erase(o);
    wakeAll(o);
    return 0;
}
int __cxa_guard_acquire(uint64_t* gd) {
    auto* b = (volatile uint8_t*)gd;
    if (b[0]) return 0;
    if (!simulated() || tid() < 0) { b[1] = 1; return 1; }
    syncYield(OP_ONCE);
    RtGuard g;
    for (;;) {
        if (b[0]) return 0;
        OnceState* s = g_once.get(gd);
        if (s->state == 0) { s->state = 1; return 1; }
        blockOn(gd, -1);
    }
}
void __cxa_guard_release(uint64_t* gd) {
    auto* b = (volatile uint8_t*)gd;
    b[0] = 1;
    if (!g_active || tid() < 0) return;
    RtGuard g;
    g_once.erase(gd);
    wakeAll(gd);
}
void __cxa_guard_abort(uint64_t* gd) {
    if (!g_active || tid() < 0) return;
    RtGuard g;
    g_once.erase(gd);
    wakeAll(gd);
}

// ---- semaphores
int sem_init(sem_t* s, int, unsigned v) { RtGuard g; SemState* x = g_sem.get(s); x->val = v; return 0; }
int sem_destroy(sem_t* s) { RtGuard g; g_sem.erase(s); return 0; }
int sem_post(sem_t* s) { { RtGuard g; g_sem.get(s)->val++; if (g_active) wakeAll(s); } if (simulated()) syncYield(OP_SEM); return 0; }
int sem_trywait(sem_t* s) {
    if (simulated()) syncYield(OP_SEM);
    RtGuard g; SemState* x = g_sem.get(s);
    if (x->val > 0) { x->val--; return 0; }
    errno = EAGAIN; return -1;
}
static int semWait(sem_t* s, int64_t dl) {
    if (simulated()) syncYield(OP_SEM);
    RtGuard g;
    while (g_sem.get(s)->val == 0) if (blockOn(s, dl) == WK_TIMEOUT) { errno = ETIMEDOUT; return -1; }
    g_sem.get(s)->val--;
    return 0;
}
int sem_wait(sem_t* s) { return semWait(s, -1); }
int sem_timedwait(sem_t* s, const struct timespec* ts) { return semWait(s, absToMono(CLOCK_REALTIME, ts)); }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) { return semWait(s, absToMono(c, ts)); }
int sem_getvalue(sem_t* s, int* v) { RtGuard g; *v = g_sem.get(s)->val; return 0; }

// ---- time
int sched_yield() {
    if (!simulated() || tid() < 0) return 0;
    lowerPriority();
    { RtGuard g; tl_me->slice += 2000; G.mono += 500; expireDeadlines(); }
    syncYield(OP_YIELD);
    return 0;
}
int usleep(useconds_t us) { if (simulated() && tid() >= 0) { sleepNs((int64_t)us * 1000); } return 0; }
unsigned sleep(unsigned s) { if (simulated() && tid() >= 0) { sleepNs((int64_t)s * 1000000000LL); } return 0; }
int nanosleep(const struct timespec* ts, struct timespec* rem) {
    if (!simulated() || tid() < 0) return 0;
    int64_t ns = tsToNs(ts);
    if (rem && ns > 1000 && fault("sleep_eintr", faultRate("sleep_eintr"), 65536)) {
        int64_t part = ns / 2;
        sleepNs(part);
        rem->tv_sec = (ns - part) / 1000000000; rem->tv_nsec = (ns - part) % 1000000000;
        errno = EINTR;
        return -1;
    }
    sleepNs(ns);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
    if (!simulated() || tid() < 0) return 0;
    if (flags & TIMER_ABSTIME) {
        int64_t dl = absToMono(c, ts);
        if (dl > monoNs()) sleepNs(dl - monoNs());
        return 0;
    }
    return nanosleep(ts, rem) == 0 ? 0 : errno;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!g_active) return (int)rawsys(SYS_clock_gettime, c, (long)ts);
    if (simulated() && tid() >= 0) syncYield(OP_CLOCK);
    int64_t t;
    switch (c) {
        case CLOCK_REALTIME: case CLOCK_TAI: t = realNs(); break;
        case CLOCK_REALTIME_COARSE: t = realNs(); t -= t % 4000000; break;     // as with 250 ticks per second
        case CLOCK_MONOTONIC_COARSE: t = monoNs(); t -= t % 4000000; break;
        default: t = monoNs(); break;
    }
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    if (!g_active) { struct timespec ts; rawsys(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    if (simulated() && tid() >= 0) syncYield(OP_CLOCK);
    int64_t t = realNs();
    tv->tv_sec = t / 1000000000; tv->tv_usec = t / 1000 % 1000000;
    return 0;
}
time_t time(time_t* p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}

// ---- randomness
int rand() { return g_active ? (int)choose(W, 0x7fffffff) : 4; }
long random() { return rand(); }
ssize_t getrandom(void* b, size_t n, unsigned) {
    for (size_t i = 0; i < n; ++i) {
        if (g_active && g_bulkRandom) {
            g_bulkRandom += 0x9e3779b97f4a7c15ull;              // splitmix64
            uint64_t z = g_bulkRandom;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            ((uint8_t*)b)[i] = (uint8_t)((z ^ (z >> 31)) >> 13);
        } else ((uint8_t*)b)[i] = g_active ? choose(W, 256) : 7;
    }
    return n;
}
int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }

// ---- raw system calls made through syscall(2)
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a[6]; for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && simulated() && tid() >= 0) {
        int op = a[1] & 127;
        auto* addr = (std::atomic<int>*)a[0];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            syncYield(OP_FUTEX);
            RtGuard g;
            if (addr->load() != (int)a[2]) { errno = EAGAIN; return -1; }
            int64_t dl = -1;
            if (a[3]) {
                auto* ts = (const struct timespec*)a[3];
                if (op == FUTEX_WAIT) dl = monoNs() + tsToNs(ts);
                else dl = absToMono((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            if (faultsOn() && chance(F, spurRate(), 65536)) {
                R->cval[counterId("futex_eintr", true)]++;
                errno = EINTR; return -1;
            }
            if (blockOn(addr, dl) == WK_TIMEOUT) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long k = 0;
            { RtGuard g; if (a[2] == INT_MAX) k = wakeAll(addr); else while (k < a[2] && wakeOne(addr)) ++k; }
            syncYield(OP_FUTEX);
            return k;
        }
    }
    long r = rawsys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

}  // extern "C"
