// Latch and Barrier (concurrent/): every schedule, spurious wakeups, stalls.
#include "sim.h"
#include "common/base/Base.h"
#include "common/concurrent/Latch.h"
#include "common/concurrent/Barrier.h"

using nebula::concurrent::Latch;
using nebula::concurrent::Barrier;
using namespace sim;

namespace {
struct Book {                       // harness bookkeeping, updated atomically
    int started = 0, done = 0, threw = 0, other = 0, released = 0;
};
}

SIM_SCENARIO(latch) {
    int n = 1 + choose(W, 5);
    int over = choose(W, 4) == 3 ? 1 + choose(W, 3) : 0;       // excess count-downs
    int waiters = choose(W, 4);
    int pollers = choose(W, 2);
    auto* b = new Book();
    std::unique_ptr<Latch> l;
    {
        bool threw = false;
        if (choose(W, 16) == 1) {
            try { Latch z(0); } catch (const std::invalid_argument&) { threw = true; } catch (...) {}
            SIM_CHECK(threw, "latch of zero count was not refused with invalid_argument");
        }
    }
    l.reset(new Latch(n));
    note("latch count=%d extra=%d waiters=%d pollers=%d", n, over, waiters, pollers);
    SIM_CHECK(!l->isReady(), "latch with %d outstanding count-downs reports ready", n);

    // distribute n + over count-downs over threads; a thread may do several
    std::vector<std::vector<int>> prog;                         // 0 down, 1 downWait
    int left = n + over;
    while (left > 0) {
        int k = 1 + choose(W, 2);
        if (k > left) k = left;
        std::vector<int> p;
        for (int i = 0; i < k; ++i) p.push_back(choose(W, 2));
        // a thread that waits inside downWait may only do so as its last step,
        // otherwise its later count-downs could be what it is waiting for
        for (int i = 0; i + 1 < k; ++i) p[i] = 0;
        prog.push_back(p);
        left -= k;
    }
    auto checkReleased = [=](const char* what) {
        NoPreempt np;
        SIM_CHECK(b->started >= n, "%s returned after only %d of %d count-downs had been issued", what, b->started, n);
        b->released++;
    };
    std::vector<std::thread> ts;
    for (auto& p : prog) {
        ts.emplace_back([=, &l] {
            for (int op : p) {
                { NoPreempt np; b->started++; }
                try {
                    if (op == 0) l->down(); else { l->downWait(); checkReleased("downWait"); }
                    NoPreempt np;
                    b->done++;
                } catch (const std::runtime_error& e) {
                    NoPreempt np;
                    b->threw++;
                    SIM_CHECK(b->started > n, "count-down refused although only %d of %d were issued", b->started, n);
                } catch (...) {
                    NoPreempt np; b->other++;
                }
            }
        });
    }
    for (int i = 0; i < waiters; ++i) {
        int times = 1 + choose(W, 2);
        int delay = choose(W, 3);
        ts.emplace_back([=, &l] {
            if (delay) sleepNs(delay * 1000);
            for (int k = 0; k < times; ++k) { l->wait(); checkReleased("wait"); }
            SIM_CHECK(l->isReady(), "latch not ready after wait returned");
        });
    }
    for (int i = 0; i < pollers; ++i) {
        ts.emplace_back([=, &l] {
            for (int k = 0; k < 200; ++k) {
                int doneBefore; { NoPreempt np; doneBefore = b->done; }
                bool r = l->isReady();
                {
                    NoPreempt np;
                    if (r) SIM_CHECK(b->started >= n, "isReady true after only %d of %d count-downs", b->started, n);
                    else SIM_CHECK(doneBefore < n, "isReady false although all %d count-downs had returned", n);
                }
                if (r) return;
                usleep(50);
            }
        });
    }
    if (choose(W, 2)) { l->wait(); checkReleased("wait"); }
    for (auto& t : ts) t.join();
    SIM_CHECK(b->done == n && b->threw == over && b->other == 0,
              "%d count-downs accepted (expected %d), %d refused (expected %d), %d other exceptions", b->done, n, b->threw, over, b->other);
    SIM_CHECK(l->isReady(), "latch not ready after all count-downs");
    l->wait();                                                   // must not block any more
    bool threw = false;
    try { if (choose(W, 2)) l->down(); else l->downWait(); } catch (const std::runtime_error&) { threw = true; }
    SIM_CHECK(threw, "count-down on a zero latch was accepted");
    SIM_CHECK(l->isReady(), "latch became unready again");
    count("latch_waits_released", b->released);
}

// Fixed participants, many rounds.
SIM_SCENARIO(barrier_rounds) {
    int n = 1 + choose(W, 4);
    int rounds = 1 + choose(W, 5);
    int cbMode = choose(W, 3);                                   // none / plain / slow
    struct St { std::vector<int> arrived, released; int completions = 0; bool inCb = false; };
    auto* st = new St();
    st->arrived.assign(rounds, 0); st->released.assign(rounds, 0);
    note("barrier participants=%d rounds=%d callback=%d", n, rounds, cbMode);
    std::function<void()> cb;
    if (cbMode) cb = [=] {
        int r;
        {
            NoPreempt np;
            SIM_CHECK(!st->inCb, "completion callback entered twice at once");
            st->inCb = true;
            r = st->completions;
            SIM_CHECK(r < rounds, "completion callback ran %d times for %d rounds", r + 1, rounds);
            SIM_CHECK(st->arrived[r] == n, "completion of round %d ran with %d of %d participants arrived", r, st->arrived[r], n);
            SIM_CHECK(st->released[r] == 0, "completion of round %d ran after %d participants had been released", r, st->released[r]);
        }
        if (cbMode == 2) { yieldPoint(); usleep(100); }
        NoPreempt np;
        SIM_CHECK(st->released[r] == 0, "a participant of round %d was released while its completion callback was running", r);
        st->completions++;
        st->inCb = false;
    };
    auto* b = new Barrier(n, cb);
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i) {
        int slow = choose(W, 3);
        ts.emplace_back([=] {
            for (int r = 0; r < rounds; ++r) {
                if (slow == 2) usleep(10);
                { NoPreempt np; st->arrived[r]++; }
                b->wait();
                NoPreempt np;
                SIM_CHECK(st->arrived[r] == n, "participant passed round %d with only %d of %d arrived", r, st->arrived[r], n);
                if (cbMode) SIM_CHECK(st->completions == r + 1, "participant passed round %d after %d completion callbacks (expected %d)", r, st->completions, r + 1);
                st->released[r]++;
            }
        });
    }
    for (auto& t : ts) t.join();
    for (int r = 0; r < rounds; ++r) SIM_CHECK(st->released[r] == n, "round %d released %d of %d", r, st->released[r], n);
    if (cbMode) SIM_CHECK(st->completions == rounds, "%d completion callbacks for %d rounds", st->completions, rounds);
    delete b;
}

// More threads than participants: generations form by arrival order.
SIM_SCENARIO(barrier_crowd) {
    int n = 1 + choose(W, 4);
    int groups = 1 + choose(W, 3);
    struct St { int arrived = 0, released = 0, completions = 0; };
    auto* st = new St();
    note("barrier participants=%d threads=%d", n, n * groups);
    bool useCb = choose(W, 4) != 0;
    auto* b = useCb ? new Barrier(n, [=] {
        NoPreempt np;
        st->completions++;
        SIM_CHECK(st->completions * n <= st->arrived, "%d completions with only %d arrivals of groups of %d", st->completions, st->arrived, n);
        SIM_CHECK(st->released <= (st->completions - 1) * n, "%d threads were released before completion %d", st->released, st->completions);
    }) : new Barrier(n);
    std::vector<std::thread> ts;
    for (int i = 0; i < n * groups; ++i) {
        ts.emplace_back([=] {
            { NoPreempt np; st->arrived++; }
            b->wait();
            NoPreempt np;
            st->released++;
            SIM_CHECK(st->released <= st->arrived / n * n, "%d threads passed with %d arrivals in groups of %d", st->released, st->arrived, n);
            if (useCb) SIM_CHECK(st->released <= st->completions * n, "%d threads passed after %d completions of %d", st->released, st->completions, n);
        });
    }
    for (auto& t : ts) t.join();
    SIM_CHECK(!useCb || st->completions == groups, "%d completion callbacks for %d full groups", st->completions, groups);
    delete b;
    if (choose(W, 8) == 1) {
        bool threw = false;
        try { Barrier z(0); } catch (const std::invalid_argument&) { threw = true; } catch (...) {}
        SIM_CHECK(threw, "barrier of zero participants was not refused with invalid_argument");
    }
}
