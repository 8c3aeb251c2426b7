// NamedThread, thread ids and scoped thread names (thread/NamedThread).
#include "sim.h"
#include "simfs.h"
#include "common/base/Base.h"
#include "common/thread/NamedThread.h"
#include <sys/prctl.h>
#include <sys/syscall.h>

using namespace sim;
using nebula::thread::NamedThread;

namespace {
std::string kernelName() {
    NoPreempt np;
    char b[64] = {0};
    ::prctl(PR_GET_NAME, b, 0, 0, 0);
    return b;
}
pid_t kernelTid() { NoPreempt np; return (pid_t)::syscall(SYS_gettid); }
std::string drawName() {
    static const char* n[] = {"worker", "", "a", "exactly15chars_", "sixteen-chars-xx", "a-very-long-thread-name-that-does-not-fit-in-the-kernel-limit"};
    return n[choose(W, 6)];
}
std::string cut(const std::string& s) { return s.substr(0, 15); }
struct Counted {                       // counts copies still alive
    static int live;
    std::string v;
    explicit Counted(std::string s) : v(std::move(s)) { NoPreempt n; ++live; }
    Counted(const Counted& o) : v(o.v) { NoPreempt n; ++live; }
    Counted(Counted&& o) noexcept : v(std::move(o.v)) { NoPreempt n; ++live; }
    ~Counted() { NoPreempt n; --live; }
};
int Counted::live = 0;
struct Book {
    std::map<int, int> ran;
    std::set<pid_t> liveIds;
    int order = 0;
};
}

SIM_SCENARIO(named_threads) {
    int nt = 1 + choose(W, 5);
    if (faultsOn() && choose(W, 3) == 1) setFaultRate("thread_create_fail", 12000);
    auto* bk = new Book();
    std::string mainName = "main-" + std::to_string(choose(W, 100));
    ::prctl(PR_SET_NAME, mainName.c_str(), 0, 0, 0);
    pid_t mainTid = kernelTid();
    SIM_CHECK(nebula::thread::gettid() == mainTid, "gettid() of the first thread differs from the kernel's id");
    { NoPreempt np; bk->liveIds.insert(mainTid); }

    int created = 0, failed = 0;
    std::vector<std::unique_ptr<NamedThread>> ts;
    std::vector<int> expectRun;
    int refSlot[8] = {0};
    for (int i = 0; i < nt; ++i) {
        std::string name = drawName();
        std::string arg = "arg-" + std::to_string(i);
        int loops = 1 + choose(W, 3);
        int nested = choose(W, 4);
        std::string inner1 = "n1-" + std::to_string(i), inner2 = drawName();
        bool throwInside = choose(W, 3) == 1;
        std::string expectName = name.empty() ? mainName : cut(name);
        // the callable sees copies of the arguments taken at construction
        auto body = [=](const Counted& a, int num, int& slot) {
            {
                NoPreempt np;
                bk->ran[i]++;
                slot++;
            }
            SIM_CHECK(a.v == "arg-" + std::to_string(i) && num == i * 7, "thread %d was started with wrong arguments (%s, %d)", i, a.v.c_str(), num);
            std::string kn = kernelName();
            SIM_CHECK(kn == expectName, "thread started as \"%s\" runs its body under the name \"%s\"", expectName.c_str(), kn.c_str());
            pid_t me = kernelTid();
            for (int k = 0; k < loops; ++k) {
                pid_t got = nebula::thread::gettid();
                SIM_CHECK(got == me, "gettid() does not identify the calling thread");
                if (k == 0) {
                    NoPreempt np;
                    SIM_CHECK(bk->liveIds.insert(got).second, "two live threads have the same id");
                }
                yieldPoint();
            }
            if (nested) {
                std::string before = kernelName();
                try {
                    NamedThread::Nominator n1(inner1);
                    SIM_CHECK(kernelName() == cut(inner1), "scoped name not in effect");
                    if (nested >= 2) {
                        {
                            NamedThread::Nominator n2(inner2);
                            SIM_CHECK(kernelName() == cut(inner2), "nested scoped name not in effect");
                            if (nested == 3) NamedThread::Nominator::set("changed-inside");
                            usleep(5);
                        }
                        SIM_CHECK(kernelName() == cut(inner1), "leaving the inner scope left the thread named \"%s\", not \"%s\"", kernelName().c_str(), cut(inner1).c_str());
                    }
                    if (throwInside) throw std::string("x");
                } catch (const std::string&) {
                }
                SIM_CHECK(kernelName() == before, "leaving the scope left the thread named \"%s\", not \"%s\"", kernelName().c_str(), before.c_str());
                std::string g;
                NamedThread::Nominator::get(g);
                SIM_CHECK(g == before, "the reported thread name \"%s\" is not the thread's name \"%s\"", g.c_str(), before.c_str());
            }
            SIM_CHECK(nebula::thread::gettid() == me, "gettid() changed within a thread");
            NoPreempt np;
            bk->liveIds.erase(me);
        };
        Counted a(arg);
        int num = i * 7;
        bool ok = true;
        try {
            ts.emplace_back(std::make_unique<NamedThread>(name, body, a, num, std::ref(refSlot[i])));
        } catch (const std::system_error&) {
            ok = false;
            failed++;
        }
        // changing the originals afterwards must not be visible to the thread
        a.v = "overwritten"; num = -1; name = "overwritten";
        if (ok) { created++; expectRun.push_back(i); }
        SIM_CHECK(kernelName() == cut(mainName), "creating a named thread renamed its creator to \"%s\"", kernelName().c_str());
        if (choose(W, 4) == 1) SIM_CHECK(nebula::thread::gettid() == mainTid, "gettid() changed within a thread");
    }
    for (size_t k = 0; k < ts.size(); ++k) {
        if (choose(W, 4) == 1) {                                  // ownership moves, the thread goes on
            NamedThread moved(std::move(*ts[k]));
            SIM_CHECK(!ts[k]->joinable(), "a moved-from thread is still joinable");
            if (choose(W, 2)) { *ts[k] = std::move(moved); SIM_CHECK(ts[k]->joinable(), "a moved thread is not joinable"); ts[k]->join(); }
            else moved.join();
        } else {
            ts[k]->join();
        }
        NoPreempt np;
        SIM_CHECK(bk->ran[expectRun[k]] == 1, "after join the callable of thread %d had run %d times", expectRun[k], bk->ran[expectRun[k]]);
        SIM_CHECK(refSlot[expectRun[k]] == 1, "a reference argument was not passed through");
    }
    ts.clear();
    NoPreempt np;
    int total = 0;
    for (auto& kv : bk->ran) total += kv.second;
    SIM_CHECK(total == created, "%d callables ran for %d threads created (%d creations failed)", total, created, failed);
    SIM_CHECK(Counted::live == 0, "%d copies of thread arguments were not destroyed", Counted::live);
    SIM_CHECK(kernelName() == cut(mainName), "the creator ended up named \"%s\"", kernelName().c_str());
    count("threads_created", created);
}
