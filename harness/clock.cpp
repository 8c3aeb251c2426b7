// Fast and slow wall clocks, stop watches, slow-operation tracking (time/, base/SlowOpTracker),
// on a simulated time-stamp counter, monotonic clock and wall clock.
#include "sim.h"
#include "simfs.h"
#include "common/base/Base.h"
#include "common/base/SlowOpTracker.h"
#include "common/time/Duration.h"
#include "common/time/WallClock.h"

using namespace sim;
using nebula::time::Duration;
using nebula::time::WallClock;

namespace {
constexpr int64_t kMs = 1000000, kSec = 1000000000;

void drawTsc() {
    static const uint64_t hz[] = {2400000000ull, 1000000000ull, 1999999000ull, 2399998123ull, 3800999999ull, 1500750000ull, 4999999999ull, 1000999999ull};
    uint32_t k = choose(W, 9);
    uint64_t h = k < 8 ? hz[k] : (uint64_t)range(W, 1000000000, 4500000000ll);
    static const uint64_t base[] = {1000, 0, 1ull << 32, (1ull << 33) - 5000000, 987654321987ull, 1ull << 52};
    setTscHz(h, base[choose(W, 6)]);
    note("tsc %llu Hz", (unsigned long long)h);
}

// Total time the simulator took away from running threads: while a thread is held
// up between two clock readings the two readings legitimately differ.
int64_t slack() { return sim::stolenNs(); }

// first use, alone and undisturbed: what a process does at start-up
void warmUp(int64_t settle) {
    WallClock::fastNowInMicroSec();
    if (settle) sleepNs(settle);
}
}  // namespace

// ---------------------------------------------------------------- C05 ----
SIM_SCENARIO(clock_accuracy) {
    setClockLimitNs(400 * 86400ll * kSec);
    drawTsc();
    int nt = 1 + choose(W, 3);
    bool quietStart = choose(W, 3) != 1;
    std::atomic<int>* calibrated = new std::atomic<int>(0);
    int64_t t0 = monoNs();
    auto work = [=](int w) {
        int n = 3 + choose(W, 8);
        for (int i = 0; i < n; ++i) {
            int unit = choose(W, 3);
            int64_t s0 = sim::stolenNs();
            int64_t lo, hi, v;
            {
                lo = realNs();
                v = unit == 0 ? WallClock::fastNowInMicroSec() : unit == 1 ? WallClock::fastNowInMilliSec() : WallClock::fastNowInSec();
                hi = realNs();
            }
            // how far off the fast clock may be: the calibration error.  The first calibration
            // sees 10 ms, so time stolen during start-up scales up until the next one.
            int64_t age = monoNs() - t0;
            int64_t stolen = sim::stolenNs();
            int64_t tol;
            if (age < 5 * kSec) tol = 1500000 + (stolen ? stolen * 210 + age / 50 : 0) + age / 5000;
            else tol = 1500000 + 3 * stolen + age / 400000;
            // a calibrator that is itself kept from running keeps the old factor
            int64_t u = unit == 0 ? 1000 : unit == 1 ? kMs : kSec;
            int64_t x = v * u;
            int64_t early = lo - tol - u - u / 2, late = hi + tol + u;  // start cut off to the unit, then rounded
            if (!(age < 5 * kSec && stolen > 8 * kMs))
                SIM_CHECK(x >= early && x <= late,
                          "fast clock (unit %lld ns) is off by %lld us after %lld s of uptime (allowed %lld us)",
                          (long long)u, (long long)((x < lo ? x - lo : x - hi) / 1000), (long long)(age / kSec), (long long)((tol + u + u / 2) / 1000));
            // slow clocks are exact
            lo = realNs();
            v = unit == 0 ? WallClock::slowNowInMicroSec() : unit == 1 ? WallClock::slowNowInMilliSec() : WallClock::slowNowInSec();
            hi = realNs();
            SIM_CHECK(v >= lo / u && v <= hi / u, "slow clock (unit %lld ns) reports %lld, the wall clock was %lld..%lld", (long long)u, (long long)v, (long long)(lo / u), (long long)(hi / u));
            static const int64_t nap[] = {0, 100000, 3 * kMs, 700 * kMs, 2 * kSec, 60 * kSec, 900 * kSec, 5 * 3600ll * kSec};
            int k = choose(W, age > 3 * kSec ? 8 : 5);
            if (nap[k]) sleepNs(nap[k] + choose(W, 999) * 1000);
            (void)s0; (void)w;
        }
        calibrated->fetch_add(1);
    };
    if (quietStart) warmUp(0);
    if (nt == 1) {
        work(0);
    } else {
        std::vector<std::thread> ts;
        for (int i = 0; i < nt; ++i) ts.emplace_back(work, i);
        for (auto& t : ts) t.join();
    }
}

// A wall clock that is stepped only shows in the slow clocks; the fast ones keep
// counting from where the process started and never jump by more than their error.
SIM_SCENARIO(clock_steps) {
    setClockLimitNs(400 * 86400ll * kSec);
    drawTsc();
    warmUp(5 * kSec);
    int64_t stepSum = 0;
    int n = 3 + choose(W, 10);
    int64_t prevFast = WallClock::fastNowInMicroSec(), prevMono = monoNs();
    for (int i = 0; i < n; ++i) {
        if (faultsOn() && chance(F, 1, 2)) {
            static const int64_t st[] = {3600 * kSec, -3600 * kSec, 1 * kSec, -1 * kSec, 50 * kMs, -86400 * kSec};
            int64_t d = st[choose(F, 6)];
            stepRealtime(d);
            stepSum += d;
        }
        sleepNs(range(W, 1, 4000) * kMs);
        int64_t lo = monoNs(), v = WallClock::fastNowInMicroSec(), hi = monoNs();
        int64_t dv = (v - prevFast) * 1000;
        int64_t tol = 2 * kMs + 3 * sim::stolenNs() + (hi - prevMono) / 100000;
        SIM_CHECK(dv >= (lo - prevMono) - tol && dv <= (hi - prevMono) + tol,
                  "the fast clock moved by %lld us while %lld us passed", (long long)(dv / 1000), (long long)((hi - prevMono) / 1000));
        prevFast = v; prevMono = lo;
        int64_t slo = realNs(), sv = WallClock::slowNowInMilliSec(), shi = realNs();
        SIM_CHECK(sv >= slo / kMs && sv <= shi / kMs, "slow clock does not follow the wall clock");
    }
}

// ---------------------------------------------------------------- C06 ----
SIM_SCENARIO(duration) {
    setClockLimitNs(400 * 86400ll * kSec);
    drawTsc();
    warmUp(choose(W, 4) == 1 ? 0 : 6 * kSec);
    int64_t start = monoNs();
    int nt = 1 + choose(W, 3);
    auto work = [=](int) {
        bool paused = choose(W, 2);
        bool dflt = !paused && choose(W, 2);
        // what the watch must show, as an interval: [lo,hi] accumulated, and the
        // window in which it was started
        int64_t accLo = 0, accHi = 0, stLo = monoNs(), stHi;
        std::unique_ptr<Duration> d(dflt ? new Duration() : new Duration(paused));
        stHi = monoNs();
        int n = 4 + choose(W, 14);
        static const int64_t nap[] = {0, 2000, 40000, 900000, 12 * kMs, 480 * kMs, 1700 * kMs, 25 * kSec, 600 * kSec, 7200 * kSec};
        for (int i = 0; i < n; ++i) {
            int op = choose(W, 8);
            switch (op) {
                case 0: case 1: {
                    int64_t t = nap[choose(W, 10)];
                    if (t) sleepNs(t + choose(W, 1000) * 100);
                    break;
                }
                case 2: {
                    int64_t b = monoNs(); d->pause(); int64_t a = monoNs();
                    if (!paused) { accLo += std::max<int64_t>(0, b - stHi); accHi += a - stLo; paused = true; }
                    break;
                }
                case 3: {
                    int64_t b = monoNs(); d->resume(); int64_t a = monoNs();
                    if (paused) { stLo = b; stHi = a; paused = false; }
                    break;
                }
                case 4: {
                    bool p = choose(W, 2);
                    int64_t b = monoNs();
                    if (!p && choose(W, 2)) d->reset(); else d->reset(p);
                    int64_t a = monoNs();
                    accLo = accHi = 0; paused = p; stLo = b; stHi = a;
                    break;
                }
                default: break;
            }
            SIM_CHECK(d->isPaused() == paused, "isPaused() says %d for a watch that is %spaused", (int)d->isPaused(), paused ? "" : "not ");
            int unit = choose(W, 3);
            int64_t b = monoNs();
            uint64_t v = unit == 0 ? d->elapsedInUSec() : unit == 1 ? d->elapsedInMSec() : d->elapsedInSec();
            int64_t a = monoNs();
            int64_t lo = accLo + (paused ? 0 : std::max<int64_t>(0, b - stHi)), hi = accHi + (paused ? 0 : a - stLo);
            int64_t u = unit == 0 ? 1000 : unit == 1 ? kMs : kSec;
            // relative error of the calibrated rate
            int64_t up = a - start;
            long double rel = up > 5 * kSec || true ? 2e-5L : 0;
            rel += (long double)sim::stolenNs() * 4 / (10 * kMs + up);
            if (up < 5 * kSec) rel += 5e-4L;
            // results are rounded to the nearest unit, microseconds are cut off
            long double elo = lo * (1 - rel) - (unit == 0 ? u : u / 2) - 1000, ehi = hi * (1 + rel) + (unit == 0 ? 0 : u / 2) + 1000;
            if (rel < 0.5L)
                SIM_CHECK((long double)v * u >= elo && (long double)v * u <= ehi,
                          "stop watch shows %llu (unit %lld ns) for %lld..%lld us of running time (%s)",
                          (unsigned long long)v, (long long)u, (long long)(lo / 1000), (long long)(hi / 1000), paused ? "paused" : "running");
        }
    };
    if (nt == 1) {
        work(0);
    } else {
        std::vector<std::thread> ts;
        for (int i = 0; i < nt; ++i) ts.emplace_back(work, i);
        for (auto& t : ts) t.join();
    }
}

// ---------------------------------------------------------------- C07 ----
namespace {
struct Sink : google::LogSink {
    std::string last;
    int n = 0;
    void send(google::LogSeverity, const char*, const char*, int, const struct ::tm*, const char* m, size_t len) override {
        NoPreempt np;
        last.assign(m, len); ++n;
    }
};
}
SIM_SCENARIO(slow_op) {
    setClockLimitNs(400 * 86400ll * kSec);
    drawTsc();
    warmUp(6 * kSec);
    FLAGS_minloglevel = 0;
    auto* sink = new Sink();
    google::AddLogSink(sink);
    static const int64_t flagv[] = {50, 1, 1000, 20000};
    int64_t flag = flagv[choose(W, 4)];
    FLAGS_slow_op_threshhold_ms = flag;
    int nt = 1 + choose(W, 2);
    auto work = [=](int w) {
        int rounds = 1 + choose(W, 3);
        for (int r = 0; r < rounds; ++r) {
            int64_t b0 = monoNs();
            nebula::SlowOpTracker t;
            int64_t b1 = monoNs();
            int q = 1 + choose(W, 4);
            for (int i = 0; i < q; ++i) {
                static const int64_t ths[] = {0, 1, 5, 50, 49, 51, 1000, 60000, -1, -50};
                int64_t th = ths[choose(W, 10)];
                int64_t eff = th > 0 ? th : flag;
                static const int64_t naps[] = {0, 2, 10, 45, 49, 50, 55, 1000, 1003, 20002, 59999, 60003, 4000000};
                int64_t nap = naps[choose(W, 13)];
                if (choose(W, 3) == 1) nap = eff + (int64_t)choose(W, 9) - 4;
                if (nap > 0) sleepNs(nap * kMs);
                int64_t c0 = monoNs();
                bool s = t.slow(th);
                int64_t c1 = monoNs();
                // the two readings are whole milliseconds: one either way, plus the clock error
                long double rel = 2e-5L + (long double)sim::stolenNs() * 4 / (6 * kSec);
                int64_t lo = (c0 - b1) / kMs, hi = (c1 - b0) / kMs;
                int64_t tol = 2 + 2 * sim::stolenNs() / kMs + (int64_t)(hi * rel);
                if (lo - tol > eff) SIM_CHECK(s, "an operation that took at least %lld ms is not slow for a threshold of %lld ms", (long long)lo, (long long)eff);
                if (hi + tol < eff) SIM_CHECK(!s, "an operation that took at most %lld ms is slow for a threshold of %lld ms", (long long)hi, (long long)eff);
                if (nt == 1) {
                    int before = sink->n;
                    t.output("[op] ", "detail-" + std::to_string(i));
                    NoPreempt np;
                    SIM_CHECK(sink->n == before + 1, "a slow operation was not reported in the log");
                    long long ms = -1;
                    const char* p = strstr(sink->last.c_str(), "total time:");
                    if (p) ms = atoll(p + 11);
                    SIM_CHECK(p && ms >= lo - tol && ms <= hi + tol, "the log reports %lld ms for an operation of %lld..%lld ms: %s", ms, (long long)lo, (long long)hi, sink->last.c_str());
                    SIM_CHECK(sink->last.find("[op] ") != std::string::npos && sink->last.find("detail-" + std::to_string(i)) != std::string::npos, "the log line lost its text: %s", sink->last.c_str());
                    SIM_CHECK(s == (ms > eff), "reported %lld ms against a threshold of %lld ms, but slow=%d", ms, (long long)eff, (int)s);
                }
            }
            (void)w;
        }
    };
    if (nt == 1) {
        work(0);
    } else {
        std::vector<std::thread> ts;
        for (int i = 0; i < nt; ++i) ts.emplace_back(work, i);
        for (auto& t : ts) t.join();
    }
    // the counter goes backwards (a virtual machine moved): never slow, never negative
    if (faultsOn() && nt == 1 && chance(F, 1, 3)) {
        nebula::SlowOpTracker t;
        // the counter stays ahead of the process's first reading of it
        int64_t back = range(F, 100, 4000) * kMs;
        int64_t b0 = monoNs();
        sim::setTscBack(back);
        sim::count("tsc_backwards");
        bool s = t.slow(60000);
        if (monoNs() - b0 > 50 * kMs) return;
        SIM_CHECK(!s, "an operation is slow although the clock went backwards");
        t.output("[op] ", "x");
        NoPreempt np;
        const char* p = strstr(sink->last.c_str(), "total time:");
        SIM_CHECK(p && atoll(p + 11) == 0, "a negative duration was reported: %s", sink->last.c_str());
    }
}
