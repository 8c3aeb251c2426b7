// GenericWorker and GenericThreadPool: tasks, timers, stopping.
#include "sim.h"
#include "simfs.h"
#include "common/base/Base.h"
#include "common/thread/GenericWorker.h"
#include "common/thread/GenericThreadPool.h"
#include <sys/prctl.h>
#include <sys/syscall.h>

using namespace sim;
using nebula::thread::GenericWorker;
using nebula::thread::GenericThreadPool;
using folly::SemiFuture;
using folly::Unit;

namespace {
constexpr int64_t MS = 1000000;
pid_t ktid() { NoPreempt np; return (pid_t)::syscall(SYS_gettid); }
std::string kname() { NoPreempt np; char b[64] = {0}; ::prctl(PR_GET_NAME, b, 0, 0, 0); return b; }

struct Boom : std::runtime_error { int id; explicit Boom(int i) : std::runtime_error("boom " + std::to_string(i)), id(i) {} };
struct MoveTracked {                    // an argument: alive as long as its task is
    static int live;
    int v;
    explicit MoveTracked(int x) : v(x) { NoPreempt n; ++live; }
    MoveTracked(const MoveTracked& o) : v(o.v) { NoPreempt n; ++live; }
    ~MoveTracked() { NoPreempt n; --live; }
};
int MoveTracked::live = 0;

struct Task {
    int id = 0, producer = 0, seq = 0, kind = 0;      // kind 0 value 1 void 2 value-throws 3 void-throws 4 adds another task 5 non-std exception
    bool added = false, beforeStop = false;
    int ran = 0;
    std::unique_ptr<SemiFuture<int>> fi;
    std::unique_ptr<SemiFuture<Unit>> fu;
};
struct Book {
    std::deque<Task> tasks;
    std::vector<int> order;             // ids in execution order
    pid_t worker = 0;
    int inside = 0;
    bool stopCalled = false, gone = false;
    std::string name;
};

int runTask(Book* bk, Task* t, GenericWorker* w, const MoveTracked& a) {
    {
        NoPreempt np;
        SIM_CHECK(!bk->gone, "task %d runs after the worker was waited for", t->id);
        SIM_CHECK(t->ran == 0, "task %d ran a second time", t->id);
        SIM_CHECK(a.v == t->id * 7 + 1, "task %d got the argument %d", t->id, a.v);
        t->ran++;
        SIM_CHECK(bk->inside++ == 0, "two tasks of one worker run at the same time");
        pid_t me = ktid();
        if (!bk->worker) {
            bk->worker = me;
            if (!bk->name.empty()) SIM_CHECK(kname() == bk->name.substr(0, 15), "the worker thread is named '%s', not '%s'", kname().c_str(), bk->name.c_str());
        }
        SIM_CHECK(bk->worker == me, "a task ran on another thread than the worker's");
        bk->order.push_back(t->id);
    }
    if (t->id % 3 == 1) usleep(1000 * (t->id % 5));
    else yieldPoint();
    { NoPreempt np; bk->inside--; }
    if (t->kind == 2 || t->kind == 3) throw Boom(t->id);
    if (t->kind == 5) throw t->id;
    return t->id * 100 + 5;
}

void add(Book* bk, GenericWorker* w, int producer, int seq, int kind) {
    Task* t;
    {
        NoPreempt np;
        bk->tasks.emplace_back();
        t = &bk->tasks.back();
        t->id = (int)bk->tasks.size() - 1; t->producer = producer; t->seq = seq; t->kind = kind;
    }
    bool isVoid = kind == 1 || kind == 3;
    {
        MoveTracked arg(t->id * 7 + 1);
        if (isVoid) {
            auto f = w->addTask([bk, t, w](const MoveTracked& a) { runTask(bk, t, w, a); }, arg);
            t->fu.reset(new SemiFuture<Unit>(std::move(f)));
        } else {
            auto f = w->addTask([bk, t, w, producer, seq](const MoveTracked& a) {
                int r = runTask(bk, t, w, a);
                if (t->kind == 4) add(bk, w, 100 + producer, seq, 0);
                return r;
            }, arg);
            t->fi.reset(new SemiFuture<int>(std::move(f)));
        }
    }
    NoPreempt np;
    t->added = true;
    t->beforeStop = !bk->stopCalled;
}

// What the future of a task says, once the worker is gone (or when it was waited for).
void checkFuture(Task& t) {
    bool ready = t.fu ? t.fu->isReady() : t.fi->isReady();
    SIM_CHECK(ready, "the future of task %d (ran %d times) was never settled", t.id, t.ran);
    try {
        if (t.fu) std::move(*t.fu).get();
        else {
            int v = std::move(*t.fi).get();
            SIM_CHECK(v == t.id * 100 + 5, "the future of task %d holds %d", t.id, v);
        }
        SIM_CHECK(t.ran == 1, "the future of task %d was fulfilled although the task did not run", t.id);
        SIM_CHECK(t.kind != 2 && t.kind != 3 && t.kind != 5, "the exception of task %d got lost", t.id);
    } catch (const folly::BrokenPromise&) {
        SIM_CHECK(t.ran == 0, "the future of task %d says broken promise although the task ran", t.id);
    } catch (const Boom& b) {
        SIM_CHECK(t.ran == 1 && (t.kind == 2 || t.kind == 3) && b.id == t.id && std::string(b.what()) == "boom " + std::to_string(t.id),
                  "the future of task %d carries the exception '%s'", t.id, b.what());
    } catch (const std::exception& e) {
        violation("the future of task %d (kind %d) carries %s instead of the exception thrown", t.id, t.kind, typeid(e).name());
    } catch (int v) {
        SIM_CHECK(t.kind == 5 && v == t.id, "the future of task %d carries the wrong value", t.id);
    }
}

void wkFaults() {
    if (!faultsOn()) return;
    static const uint32_t r[] = {0, 800, 8000};
    setFaultRate("wait_eintr", r[choose(W, 3)]);
    setFaultRate("eventfd_fail", choose(W, 6) == 1 ? 20000 : 0);
    setFaultRate("epoll_create_fail", choose(W, 6) == 1 ? 20000 : 0);
    setFaultRate("thread_create_fail", choose(W, 8) == 1 ? 12000 : 0);
}
// True when the worker was started; otherwise it must have been a refused resource.
bool startIt(GenericWorker* w, const std::string& name) {
    uint64_t f0 = faultCount("eventfd_fail") + faultCount("thread_create_fail");
    bool ok = false;
    try { ok = w->start(name); } catch (const std::system_error&) { ok = false; }
    bool refused = faultCount("eventfd_fail") + faultCount("thread_create_fail") > f0;
    setFaultRate("thread_create_fail", 0);             // from now on only this harness makes threads
    SIM_CHECK(ok || refused, "start() failed although every resource was granted");
    return ok;
}
}  // namespace

SIM_SCENARIO(worker_tasks) {
    wkFaults();
    int fds0 = ioOpenFds();
    auto* bk = new Book();
    static const char* names[] = {"", "wk", "a-long-worker-name-indeed"};
    int lives = 1 + (choose(W, 4) == 1);
    {
        auto w = std::make_unique<GenericWorker>();
        SIM_CHECK(!w->stop(), "stopping a worker that was not started claims success");
        SIM_CHECK(!w->wait(), "waiting for a worker that was not started claims success");
        for (int life = 0; life < lives; ++life) {
            { NoPreempt np; bk->name = names[choose(W, 3)]; bk->stopCalled = false; bk->gone = false; bk->worker = 0; }
            if (!startIt(w.get(), bk->name)) {
                SIM_CHECK(!w->stop(), "a worker whose start failed can be stopped");
                SIM_CHECK(!w->wait(), "a worker whose start failed can be waited for");
                continue;
            }
            SIM_CHECK(!w->start("again"), "starting a running worker again claims success");
            int np = 1 + choose(W, 3), each = 1 + choose(W, 5);
            int extra = choose(W, 3);                      // tasks racing with the stop
            bool settle = choose(W, 2);                    // wait for the futures before stopping
            bool dtor = life == lives - 1 && choose(W, 3) == 1;  // leave stopping to the destructor
            note("producers=%d each=%d extra=%d settle=%d dtor=%d", np, each, extra, settle, dtor);
            std::vector<std::thread> ps;
            for (int p = 0; p < np; ++p)
                ps.emplace_back([=, wp = w.get()] {
                    for (int k = 0; k < each; ++k) { add(bk, wp, life * 1000 + p, k, choose(W, 6)); if (choose(W, 4) == 1) usleep(700); }
                });
            for (auto& t : ps) t.join();
            if (settle) {
                // every task added so far completes although nobody stops the worker
                setFaults(false);
                bool done = waitUntil([&] { for (auto& t : bk->tasks) if (!t.ran || !(t.fu ? t.fu->isReady() : t.fi && t.fi->isReady())) return false; return true; }, 5000 * MS);
                if (!done) for (auto& t : bk->tasks) SIM_CHECK(t.ran && (t.fu ? t.fu->isReady() : t.fi->isReady()), "task %d of %zu was never finished while the worker was running", t.id, bk->tasks.size());
            }
            std::thread late;
            if (extra && !dtor) late = std::thread([=, wp = w.get()] { for (int k = 0; k < extra; ++k) add(bk, wp, life * 1000 + 50, k, choose(W, 4)); });
            if (dtor) {
                { NoPreempt n; bk->stopCalled = true; }
                w.reset();
                { NoPreempt n; bk->gone = true; }
            } else {
                std::thread stopper2;
                { NoPreempt n; bk->stopCalled = true; }
                SIM_CHECK(w->stop(), "stopping a running worker claims failure");
                SIM_CHECK(!w->stop(), "stopping a stopped worker claims success");
                SIM_CHECK(w->wait(), "waiting for the worker claims failure");
                { NoPreempt n; bk->gone = true; }
                if (late.joinable()) late.join();
                SIM_CHECK(!w->wait(), "waiting a second time claims success");
            }
            std::map<int, int> last;
            std::vector<int> pos(bk->tasks.size(), -1);
            for (size_t i = 0; i < bk->order.size(); ++i) pos[bk->order[i]] = (int)i;
            for (auto& t : bk->tasks) {
                if (t.beforeStop && t.producer % 1000 < 100)
                    SIM_CHECK(t.ran == 1, "task %d of producer %d, added before the worker was stopped, never ran", t.id, t.producer);
                if (t.ran) {
                    auto it = last.find(t.producer);
                    SIM_CHECK(it == last.end() || it->second < pos[t.id], "tasks of producer %d ran out of order", t.producer);
                    last[t.producer] = pos[t.id];
                    SIM_CHECK(t.fu ? t.fu->isReady() : t.fi->isReady(), "the future of task %d was not settled although it ran", t.id);
                    count("tasks_run");
                } else {
                    count("tasks_dropped_after_stop");
                }
            }
        }
        w.reset();
    }
    for (auto& t : bk->tasks) if (t.fu ? t.fu->valid() : (t.fi && t.fi->valid())) checkFuture(t);
    bk->tasks.clear();
    SIM_CHECK(MoveTracked::live == 0, "%d task arguments were never released", MoveTracked::live);
    SIM_CHECK(ioOpenFds() == fds0, "%d descriptors stayed open after the worker's end", ioOpenFds() - fds0);
}

namespace {
struct Tm {
    int id = 0;
    bool repeat = false;
    int64_t ms = 0;
    int64_t called = 0, returned = 0;                     // when it was added
    int64_t busy0 = 0;
    std::vector<int64_t> runs;
    uint64_t handle = 0;
    int purgeAt = 0;                                      // purge itself in the n-th run (0: never)
    bool purged = false, sealed = false;
    std::unique_ptr<SemiFuture<int>> fi;
    std::unique_ptr<SemiFuture<Unit>> fu;
};
struct TBook {
    std::deque<Tm> ts;
    int64_t busy = 0;                                     // virtual time spent inside tasks on the worker
    bool gone = false;
    int inside = 0;
};
constexpr int64_t kCoarse = 4 * MS;                       // granularity of the event loop's clock
void enter(TBook* b) { NoPreempt np; SIM_CHECK(!b->gone, "a timer fires after the worker was waited for"); SIM_CHECK(b->inside++ == 0, "two callbacks of one worker at the same time"); }
void leave(TBook* b, int64_t t0) { NoPreempt np; b->inside--; b->busy += monoNs() - t0; }
void fire(TBook* b, Tm* t, GenericWorker* w, int work) {
    enter(b);
    int64_t now = monoNs();
    {
        NoPreempt np;
        SIM_CHECK(!t->sealed, "timer %d fired after it was purged", t->id);
        SIM_CHECK(t->repeat || t->runs.empty(), "the one-shot timer %d fired twice", t->id);
        int64_t due = t->called + (int64_t)(t->runs.size() + 1) * t->ms * MS;
        // a repeated timer is never ahead of its schedule; a one-shot never early
        SIM_CHECK(now >= due - kCoarse - MS, "timer %d (%lld ms) fired %lld us early (run %zu)", t->id, (long long)t->ms, (long long)(due - now) / 1000, t->runs.size());
        t->runs.push_back(now);
    }
    if (work) usleep(work);
    leave(b, now);
    if (t->repeat && t->purgeAt && (int)t->runs.size() == t->purgeAt) { w->purgeTimerTask(t->handle); }
}
}  // namespace

SIM_SCENARIO(worker_timers) {
    wkFaults();
    int fds0 = ioOpenFds();
    auto* bk = new TBook();
    {
        auto w = std::make_unique<GenericWorker>();
        GenericWorker* wp = w.get();
        if (!startIt(wp, "tm")) return;
        int nth = 1 + choose(W, 2), each = 1 + choose(W, 4);
        std::vector<std::thread> ths;
        auto adder = [=](int p) {
            for (int k = 0; k < each; ++k) {
                int op = choose(W, 6);
                static const int msv[] = {20, 1, 50, 200, 7, 1000, 0, 1500};
                int work = choose(W, 4) == 1 ? 1000 * (1 + choose(W, 60)) : 0;
                if (op == 5) {                          // a task that keeps the worker busy
                    int64_t us = 1000 * (1 + choose(W, 300));
                    wp->addTask([=] { enter(bk); int64_t t0 = monoNs(); usleep(us); leave(bk, t0); });
                } else {
                    Tm* t;
                    { NoPreempt np; bk->ts.emplace_back(); t = &bk->ts.back(); t->id = (int)bk->ts.size() - 1; t->repeat = op == 1 || op == 2; }
                    t->ms = msv[choose(W, t->repeat ? 6 : 8)];
                    t->purgeAt = t->repeat ? choose(W, 4) : 0;
                    { NoPreempt np; t->busy0 = bk->busy; t->called = monoNs(); }
                    if (t->repeat) {
                        // the handle is only known once addRepeatTask returned
                        int later = t->purgeAt; t->purgeAt = 0;
                        uint64_t h = wp->addRepeatTask(t->ms, [=](int) { fire(bk, t, wp, work); }, 3);
                        NoPreempt np;
                        for (auto& o : bk->ts) SIM_CHECK(&o == t || !o.repeat || !o.returned || o.handle != h, "two timers got the id %llu", (unsigned long long)h);
                        t->handle = h; t->purgeAt = later ? (int)t->runs.size() + later : 0;
                    } else if (op == 3) {
                        t->fu.reset(new SemiFuture<Unit>(wp->addDelayTask(t->ms, [=] { fire(bk, t, wp, work); if (t->id % 4 == 3) throw Boom(t->id); })));
                    } else {
                        t->fi.reset(new SemiFuture<int>(wp->addDelayTask(t->ms, [=] { fire(bk, t, wp, work); if (t->id % 4 == 3) throw Boom(t->id); return t->id + 40; })));
                    }
                    NoPreempt np; t->returned = monoNs();
                }
                if (choose(W, 2)) sleepNs(choose(W, 200) * MS);
                // purge one of the repeated timers from outside
                if (choose(W, 3) == 1) {
                    Tm* v = nullptr;
                    { NoPreempt np; for (auto& o : bk->ts) if (o.repeat && o.returned && !o.purged && o.id % nth == p) { v = &o; break; } if (v) v->purged = true; }
                    if (v) {
                        wp->purgeTimerTask(v->handle);
                        auto f = wp->addTask([] { return 1; });
                        std::move(f).get();
                        // the purge was handled together with or before the task that came later; the callbacks follow it
                        std::move(wp->addTask([] { return 1; })).get();
                        NoPreempt np; v->sealed = true;
                    }
                }
            }
        };
        for (int i = 1; i < nth; ++i) ths.emplace_back(adder, i);
        adder(0);
        for (auto& t : ths) t.join();
        setFaults(false);
        int64_t watch = choose(W, 4) * 700 * MS;
        sleepNs(watch);
        // progress: what is due (allowing for the time taken away and the work of others) has run
        bool all = choose(W, 2);
        if (all) sleepNs(3000 * MS);
        {
            NoPreempt np;
            int64_t now = monoNs();
            for (auto& t : bk->ts) {
                // a stall may have begun before the timer was made
                int64_t slack = 12 * MS + stolenNs() + 2 * (bk->busy - t.busy0) + (bk->inside ? 400 * MS : 0);
                int64_t due = t.returned + t.ms * MS;
                if (!t.repeat) {
                    SIM_CHECK(!t.runs.empty() || now <= due + slack, "timer %d (%lld ms) did not fire within %lld ms of being due", t.id, (long long)t.ms, (long long)(now - due) / MS);
                    if (!t.runs.empty()) SIM_CHECK(t.runs[0] <= due + slack, "timer %d (%lld ms) fired %lld ms late", t.id, (long long)t.ms, (long long)(t.runs[0] - due) / MS);
                } else if (!t.purged && !t.purgeAt) {
                    int64_t lastSeen = t.runs.empty() ? t.returned : t.runs.back();
                    SIM_CHECK(now - lastSeen <= t.ms * MS + slack, "the repeated timer %d (%lld ms) has not fired for %lld ms", t.id, (long long)t.ms, (long long)(now - lastSeen) / MS);
                }
                if (t.repeat) count("repeat_runs", t.runs.size());
                else count("delay_runs", t.runs.size());
            }
        }
        int how = choose(W, 3);
        if (how == 0) { w->stop(); w->wait(); { NoPreempt np; bk->gone = true; } w.reset(); }
        else { w.reset(); NoPreempt np; bk->gone = true; }
    }
    // futures: the value, the exception, or a broken promise when it never ran
    for (auto& t : bk->ts) {
        if (t.repeat) {
            SIM_CHECK(!t.purgeAt || t.purged || (int)t.runs.size() <= t.purgeAt + 1 + (int)faultCount("wait_eintr"), "timer %d ran %zu times although it purged itself in run %d", t.id, t.runs.size(), t.purgeAt);
            continue;
        }
        bool ready = t.fu ? t.fu->isReady() : t.fi->isReady();
        SIM_CHECK(ready, "the future of timer %d was never settled", t.id);
        bool ran = !t.runs.empty(), throws = t.id % 4 == 3;
        try {
            if (t.fu) std::move(*t.fu).get();
            else { int v = std::move(*t.fi).get(); SIM_CHECK(v == t.id + 40, "wrong value for timer %d", t.id); }
            SIM_CHECK(ran && !throws, "the future of timer %d has a value (ran %d, throws %d)", t.id, ran, throws);
        } catch (const folly::BrokenPromise&) {
            SIM_CHECK(!ran, "broken promise for timer %d, which ran", t.id);
        } catch (const Boom& b) {
            SIM_CHECK(ran && throws && b.id == t.id, "wrong exception for timer %d", t.id);
        } catch (const std::exception& e) {
            violation("the future of timer %d carries %s instead of the exception thrown", t.id, typeid(e).name());
        }
    }
    SIM_CHECK(ioOpenFds() == fds0, "%d descriptors stayed open after the worker's end", ioOpenFds() - fds0);
}

SIM_SCENARIO(pool_tasks) {
    wkFaults();
    int fds0 = ioOpenFds();
    struct PT { int ran = 0, arg = 0; std::unique_ptr<SemiFuture<int>> f; std::unique_ptr<SemiFuture<Unit>> fu; };
    auto* ts = new std::deque<PT>();
    auto* seenOn = new std::map<pid_t, int>();
    struct RT { uint64_t h = 0; std::atomic<int> runs{0}; int atPurge = 0; bool purged = false; };
    auto* rts = new std::deque<RT>();
    {
        GenericThreadPool pool;
        int lives = 1 + (choose(W, 3) == 1);
        for (int life = 0; life < lives; ++life) {
            int n = 1 + choose(W, 4);
            uint64_t f0 = faultCount("eventfd_fail") + faultCount("thread_create_fail");
            bool ok = false;
            try { ok = pool.start(n, choose(W, 2) ? "pool" : ""); } catch (const std::system_error&) {}
            bool refused = faultCount("eventfd_fail") + faultCount("thread_create_fail") > f0;
            setFaultRate("thread_create_fail", 0);
            SIM_CHECK(ok || refused, "starting the pool failed although every resource was granted");
            if (!ok) { pool.stop(); pool.wait(); count("pool_start_refused"); continue; }
            SIM_CHECK(!pool.start(n), "starting a running pool again claims success");
            { NoPreempt np; ts->clear(); seenOn->clear(); rts->clear(); }
            // n tasks added one after the other can all be in progress at once
            auto* inside = new std::atomic<int>(0);
            std::vector<SemiFuture<int>> together;
            for (int i = 0; i < n; ++i)
                together.push_back(pool.addTask([=] {
                    inside->fetch_add(1);
                    return waitUntil([=] { return inside->load() >= n; }, 20000 * MS) ? 1 : 0;
                }));
            for (auto& f : together) SIM_CHECK(std::move(f).get() == 1, "%d tasks on %d threads were not all in progress at once", n, n);
            int prods = 1 + choose(W, 3), each = 1 + choose(W, 5);
            std::vector<std::thread> ps;
            for (int p = 0; p < prods; ++p)
                ps.emplace_back([=, &pool] {
                    for (int k = 0; k < each; ++k) {
                        PT* t; { NoPreempt np; ts->emplace_back(); t = &ts->back(); }
                        int arg = t->arg = (int)choose(W, 1000);
                        auto body = [=](int a) {
                            NoPreempt np;
                            SIM_CHECK(t->ran++ == 0, "a pool task ran twice");
                            SIM_CHECK(a == arg, "a pool task got the wrong argument");
                            (*seenOn)[ktid()]++;
                            if (a % 7 == 3) throw Boom(a);
                            return a + 1;
                        };
                        auto bodyV = [=](int a) { body(a); };
                        int how = choose(W, 6), ms = how & 1 ? choose(W, 30) : 0;
                        if (how == 1) t->f.reset(new SemiFuture<int>(pool.addDelayTask(ms, body, arg)));
                        else if (how == 3) t->fu.reset(new SemiFuture<Unit>(pool.addDelayTask(ms, bodyV, arg)));
                        else if (how < 4) t->f.reset(new SemiFuture<int>(pool.addTask(body, arg)));
                        else t->fu.reset(new SemiFuture<Unit>(pool.addTask(bodyV, arg)));
                        if (choose(W, 8) == 1) usleep(900);
                        if (choose(W, 4) == 1) { NoPreempt np; rts->emplace_back(); }
                    }
                });
            for (auto& t : ps) t.join();
            for (auto& t : *ts) {
                try {
                    int v = 1;
                    if (t.f) v = std::move(*t.f).get(std::chrono::seconds(60)); else std::move(*t.fu).get(std::chrono::seconds(60));
                    SIM_CHECK(t.ran == 1, "a pool task did not run");
                    SIM_CHECK(t.ran == 1 && (v == t.arg + 1 || !t.f), "the future of a pool task holds %d", v);
                    SIM_CHECK(t.arg % 7 != 3, "the exception of a pool task got lost");
                } catch (const Boom& b) { SIM_CHECK(t.ran == 1 && b.id == t.arg && b.id % 7 == 3, "wrong exception");
                } catch (const folly::FutureTimeout&) { violation("a task of a running pool was not finished within a minute");
                } catch (const std::exception& e) { violation("the future of a pool task carries %s", e.what()); }
            }
            SIM_CHECK((int)seenOn->size() <= n, "%zu threads for a pool of %d", seenOn->size(), n);
            // repeated timers: each id purges exactly its own timer
            int rn = 1 + choose(W, 4);
            while ((int)rts->size() < rn) rts->emplace_back();
            for (auto& r : *rts) { RT* rp = &r; r.h = pool.addRepeatTask(10 + choose(W, 20), [=] { rp->runs++; }); }
            for (auto& a : *rts) for (auto& b : *rts) SIM_CHECK(&a == &b || a.h != b.h, "two timers of a pool have the same id");
            setFaults(false);
            sleepNs(200 * MS);
            for (auto& r : *rts) if (choose(W, 2)) { pool.purgeTimerTask(r.h); r.purged = true; }
            sleepNs(500 * MS);
            for (auto& r : *rts) r.atPurge = r.runs;
            sleepNs(500 * MS);
            for (auto& r : *rts) {
                if (r.purged) SIM_CHECK(r.runs == r.atPurge || stolenNs() > 400 * MS, "a purged timer of the pool went on firing");
                else SIM_CHECK(r.runs > r.atPurge || stolenNs() > 100 * MS, "a timer of the pool stopped although it was not purged");
            }
            count("pool_tasks", ts->size());
            if (life < lives - 1 || choose(W, 2)) {
                SIM_CHECK(pool.stop(), "stopping the running pool claims failure");
                SIM_CHECK(pool.wait(), "waiting for the pool claims failure");
            }
        }
    }
    SIM_CHECK(ioOpenFds() == fds0, "%d descriptors stayed open after the pool's end", ioOpenFds() - fds0);
}
