// SignalHandler: signals arriving at any step of any thread.
#include "sim.h"
#include "proc.h"
#include "common/base/Base.h"
#include "common/base/SignalHandler.h"

using namespace sim;
using nebula::SignalHandler;
using nebula::Status;

namespace {
struct Delivery { int sig, calls = 0; uint64_t begin, end = 0; bool done = false; };
struct Version { int sig; uint64_t inv, ret; bool ok, done, list; };
struct Book {
    std::map<int, Delivery> by;                          // id of a signal (the sender's pid) -> what became of it
    std::vector<Version> vers;
    std::vector<int> stack[64];                          // deliveries in progress per thread
    std::set<int> ignored;
    uint64_t clk = 0;
    int fatal = 0;
};
Book* bk;
bool isFatal(int s) { return s == SIGSEGV || s == SIGABRT || s == SIGILL || s == SIGFPE || s == SIGBUS; }

struct Handler {                                         // fits or does not fit into a std::function
    size_t ver;
    std::array<char, 64> pad;
    std::string tag;
    void operator()(SignalHandler::GeneralSignalInfo* i) const;
};
void called(size_t ver, const std::string& tag, SignalHandler::GeneralSignalInfo* i) {
    NoPreempt np;
    SIM_CHECK(tag == "handler", "a handler was called after it had been destroyed");
    SIM_CHECK(ver < bk->vers.size(), "a handler was called that was never installed");
    auto it = bk->by.find(i->pid());
    SIM_CHECK(it != bk->by.end(), "a handler was called for a signal from %d, who sent none", i->pid());
    auto& d = it->second;
    if (i->pid() == procSelf() && isFatal(d.sig)) {      // raised again after the handler: only an installation in between may take it
        bool between = false;
        for (auto& v : bk->vers) for (auto& o : bk->by) if (v.sig == d.sig && o.second.sig == d.sig && o.first != procSelf() && o.second.begin && (!v.done || v.ret > o.second.begin)) between = true;
        SIM_CHECK(between, "the handler was called again for the fatal signal %d", d.sig);
        d.calls = 1;
        return;
    }
    SIM_CHECK(i->sig() == d.sig && i->uid() == (uid_t)i->pid() * 7, "a handler was told signal %d from user %u instead of signal %d", i->sig(), i->uid(), d.sig);
    SIM_CHECK(bk->vers[ver].sig == d.sig, "the handler of signal %d was called for signal %d", bk->vers[ver].sig, d.sig);
    SIM_CHECK(++d.calls == 1, "the handler was called %d times for one signal %d", d.calls, d.sig);
    SIM_CHECK(!bk->stack[tid()].empty() && bk->stack[tid()].back() == i->pid(), "the handler was called outside of the signal's delivery");
    char b[200];
    snprintf(b, sizeof b, "sig[%d], ", d.sig);
    SIM_CHECK(strstr(i->toString(), b), "the description '%s' of signal %d is wrong", i->toString(), d.sig);
    // the handler is the last one installed, or one being installed
    for (auto& v : bk->vers)
        if (v.sig == d.sig && v.done && v.ok && bk->vers[ver].done && v.inv > bk->vers[ver].ret && v.ret < d.begin)
            violation("a signal was given to a handler that had been replaced before");
    auto& me = bk->vers[ver];
    SIM_CHECK(!(me.done && !me.ok && !me.list && me.ret < d.begin), "a handler whose installation had failed was called");
}
void Handler::operator()(SignalHandler::GeneralSignalInfo* i) const { called(ver, tag, i); yieldPoint(); }
}  // namespace

SIM_SCENARIO(signals) {
    bk = new Book();
    if (faultsOn()) {
        static const uint32_t r[] = {0, 0, 6000, 20000};
        setFaultRate("sigaction_fail", r[choose(W, 4)]);
    }
    static const int all[] = {SIGTERM, SIGINT, SIGCHLD, SIGUSR1, SIGHUP, SIGPIPE, SIGRTMIN + 3, 1 + 63, SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL};
    SigEvents ev;
    ev.before = [](int sig, int id) {
        auto& d = bk->by[id];
        SIM_CHECK(d.sig == sig || id == procSelf(), "?");
        d.sig = sig;
        d.begin = ++bk->clk;
        bk->stack[tid()].push_back(id);
    };
    ev.after = [](int sig, int id) {
        auto& d = bk->by[id];
        SIM_CHECK(d.calls == 1, "no handler was called for signal %d", sig);
        d.end = ++bk->clk; d.done = true;
        bk->stack[tid()].pop_back();
        sim::count("signals_handled");
    };
    ev.ignored = [](int sig, int id) {
        SIM_CHECK(sig == SIGPIPE || sig == SIGHUP, "signal %d was ignored", sig);
        for (auto& v : bk->vers) SIM_CHECK(v.sig != sig || !v.done || !v.ok, "signal %d was ignored although a handler had been installed", sig);
        bk->ignored.insert(id);
        sim::count("signals_ignored");
    };
    ev.death = [](int sig) {
        SIM_CHECK(isFatal(sig), "signal %d ended the process although it had been handled", sig);
        SIM_CHECK(bk->fatal, "?");
        int seen = 0;
        for (auto& d : bk->by) if (isFatal(d.second.sig)) seen += d.second.calls;
        SIM_CHECK(seen >= 1, "the process was ended by signal %d before its handler was called", sig);
        sim::count("died_as_it_should");
        finishPass();
    };
    onSignals(ev);
    // signals on their way
    int n = 1 + choose(W, 5), id = 1000;
    std::set<int> used;
    std::vector<int> sigs;
    int ns = 1 + choose(W, 4);
    bool wantFatal = choose(W, 3) == 1;
    for (int i = 0; i < ns; ++i) { int s = all[choose(W, wantFatal ? 13 : 8)]; if (used.insert(s).second) sigs.push_back(s); }
    for (int i = 0; i < n; ++i) {
        int s = choose(W, 8) == 1 ? (choose(W, 2) ? SIGPIPE : SIGHUP) : sigs[choose(W, sigs.size())];
        if (isFatal(s)) bk->fatal++;
        if (bk->fatal > 1 && isFatal(s)) continue;
        ++id;
        bk->by[id].sig = s;
        sigSchedule(s, choose(W, 3) ? choose(W, 60) : choose(W, 2000), id, id * 7);
    }
    // other threads are around, and signals may arrive in them
    bool stop = false;
    std::vector<std::thread> ts;
    setFaults(faultsOn());
    int nt = choose(W, 3);
    for (int i = 0; i < nt; ++i) ts.emplace_back([&] { volatile int x = 0; for (int k = 0; k < 400; ++k) { x = x + 1; if (k % 16 == 0) yieldPoint(); } });
    int installs = 1 + choose(W, 6);
    bool anyOk = false;
    for (int k = 0; k < installs; ++k) {
        bool list = choose(W, 4) == 1;
        int a = sigs[choose(W, sigs.size())], b = sigs[choose(W, sigs.size())];
        size_t v0;
        uint64_t f0 = faultCount("sigaction_fail");
        {
            NoPreempt np;
            v0 = bk->vers.size();
            bk->vers.push_back({a, ++bk->clk, 0, false, false, list && a != b});
            if (list && a != b) bk->vers.push_back({b, ++bk->clk, 0, false, false, list && a != b});
        }
        Status st;
        // a handler for one signal knows its version; one for two signals tells them apart
        if (list && a != b) {
            std::string tag = "handler";
            st = SignalHandler::install({a, b}, [=](SignalHandler::GeneralSignalInfo* i) { called(i->sig() == a ? v0 : v0 + 1, tag, i); yieldPoint(); });
        } else if (choose(W, 2)) {
            st = SignalHandler::install(a, [v0](SignalHandler::GeneralSignalInfo* i) { called(v0, "handler", i); });
        } else {
            st = SignalHandler::install(a, Handler{v0, {}, "handler"});
        }
        NoPreempt np;
        bool faulted = faultCount("sigaction_fail") > f0;
        SIM_CHECK(st.ok() || faulted, "installing a handler failed although nothing went wrong: %s", st.toString().c_str());
        SIM_CHECK(!faulted || !st.ok(), "installing a handler succeeded although the system refused");
        for (size_t v = v0; v < bk->vers.size(); ++v) { bk->vers[v].ret = ++bk->clk; bk->vers[v].ok = st.ok(); bk->vers[v].done = true; }
        anyOk |= st.ok();
        sim::count(st.ok() ? "installed" : "install_failed");
    }
    for (auto& t : ts) t.join();
    // the rest of the signals arrive
    for (int k = 0; k < 3000 && sigScheduled(); ++k) yieldPoint();
    NoPreempt np;
    for (auto& d : bk->by) if (d.second.begin) {
        SIM_CHECK(d.second.done && d.second.calls == 1, "signal %d was not handled", d.second.sig);
        SIM_CHECK(!isFatal(d.second.sig), "the process survived signal %d", d.second.sig);
    }
    if (anyOk) {   // SIGPIPE and SIGHUP do not end a process that uses this
        for (int s : {SIGPIPE, SIGHUP}) {
            struct sigaction o;
            sigaction(s, nullptr, &o);
            SIM_CHECK((o.sa_flags & SA_SIGINFO) || o.sa_handler == SIG_IGN, "signal %d still ends the process", s);
        }
    }
    (void)stop;
}
