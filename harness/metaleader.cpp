// Storage leaders as the meta client knows them.
#include "metacluster.h"

namespace {
struct Op {
    enum K { GET, SET, DROP } k; int part; HostAddr h;
    uint64_t inv, ret; bool ok = true;
};
// Is there an order of the operations on one part, each between its start and
// its end, in which every answer follows?  State: the leader or none, and the
// host last picked, if known.
struct Lin {
    const std::vector<Op>& ops; const std::vector<HostAddr>& peers;
    std::set<std::tuple<uint64_t, std::string, int>> seen;
    bool run(uint64_t done, HostAddr leader, bool has, int picked) {
        if (done == (1ull << ops.size()) - 1) return true;
        if (!seen.insert({done, has ? hp(leader) : "", picked}).second) return false;
        uint64_t first = ~0ull;
        for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1)) first = std::min(first, ops[i].ret);
        for (size_t i = 0; i < ops.size(); i++) {
            if ((done >> i & 1) || ops[i].inv > first) continue;
            const Op& o = ops[i];
            HostAddr l = leader; bool h = has; int p = picked;
            if (o.k == Op::SET) { l = o.h; h = true; }
            else if (o.k == Op::DROP) h = false;
            else if (h) { if (o.h != l) continue; }
            else {                                        // one of the hosts, in turn
                auto at = std::find(peers.begin(), peers.end(), o.h);
                if (at == peers.end()) continue;
                int n = (int)(at - peers.begin());
                if (picked >= 0 && n != (picked + 1) % (int)peers.size()) continue;
                p = n; l = o.h; h = true;
            }
            if (run(done | 1ull << i, l, h, p)) return true;
        }
        return false;
    }
};
}  // namespace

SIM_SCENARIO(meta_leader) {
    auto* c = new Cluster();
    timing();
    c->setUp(1, 3 + choose(W, 2), 1);
    auto& w = c->w;
    w.mutate(0);
    for (int i = 0, n = choose(W, 3); i < n; i++) w.mutate(choose(W, 2) ? 0 : 9);
    setClockLimitNs(7200 * SEC);
    c->make(options(HostAddr("10.0.9.1", 1), mc::HostRole::GRAPH));
    auto* m = c->client.get();
    SIM_CHECK(m->waitForMetadReady(-1, 1), "waiting for metad for ever returned without success");
    int epochs = 1 + choose(W, 3);
    for (int e = 0; e < epochs; e++) {
        // Nothing loads now: the next heartbeat finds nothing new.
        auto sp = *w.cur().spaces.begin();
        int np = std::min<int>((int)sp.second.parts.size(), 1 + choose(W, 2));
        auto reported = [&](int p) { auto it = sp.second.leaders.find(p); return it != sp.second.leaders.end() && std::find(w.cur().hosts.begin(), w.cur().hosts.end(), it->second) != w.cur().hosts.end() ? it->second : HostAddr(); };
        std::vector<Op> ops;
        uint64_t clk = 0;
        int threads = 1 + choose(W, 4), per = 2 + choose(W, 5), done = 0;
        note("epoch %d: %d threads, %d calls each on %d parts", e, threads, per, np);
        auto one = [&](Op o) {
            { NoPreempt n; o.inv = ++clk; }
            if (o.k == Op::GET) { auto r = m->getStorageLeaderFromCache(sp.first, o.part); SIM_CHECK(r.ok(), "no leader for space %d part %d, which is there: %s", sp.first, o.part, r.status().toString().c_str()); o.h = r.value(); }
            else if (o.k == Op::SET) m->updateStorageLeader(sp.first, o.part, o.h);
            else m->invalidStorageLeader(sp.first, o.part);
            NoPreempt n; o.ret = ++clk; ops.push_back(o); count("leader_calls");
        };
        std::vector<std::thread> ts;
        int bias = choose(W, 3);
        for (int t = 0; t < threads; t++) ts.emplace_back([&] {
            for (int i = 0; i < per; i++) {
                Op o; o.part = 1 + choose(W, np);
                int r = choose(W, 6);
                o.k = r < 3 ? Op::GET : r == 3 ? (bias ? Op::DROP : Op::SET) : r == 4 ? (bias == 1 ? Op::GET : Op::SET) : Op::DROP;
                if (o.k == Op::SET) { auto& ps = sp.second.parts[o.part]; o.h = ps[choose(W, (uint32_t)ps.size())]; if (choose(W, 6) == 0) o.h = HostAddr("10.0.7.1", 7); }
                one(o);
                if (choose(W, 3) == 0) sleepNs(range(T, 10, 50000));
            }
            NoPreempt n; ++done;
        });
        SIM_CHECK(waitUntil([&] { return done == threads; }, 600 * SEC), "a caller is stuck");
        for (auto& t : ts) t.join();
        for (int p = 1; p <= np; p++) { Op o; o.k = Op::GET; o.part = p; one(o); one(o); }
        for (int p = 1; p <= np; p++) {
            std::vector<Op> mine;
            for (auto& o : ops) if (o.part == p) mine.push_back(o);
            HostAddr l = reported(p);
            Lin lin{mine, sp.second.parts[p], {}};
            if (mine.size() < 60 && !lin.run(0, l, l.port != 0, -1)) {
                std::string s;
                static const char* kn[] = {"asked, answer", "told", "told there is none"};
                std::sort(mine.begin(), mine.end(), [](const Op& a, const Op& b) { return a.inv < b.inv; });
                for (auto& o : mine) s += " [" + std::to_string(o.inv) + "-" + std::to_string(o.ret) + " " + kn[o.k] + (o.k == Op::DROP ? "" : " " + hp(o.h)) + "]";
                violation("leader of space %d part %d on %s, at first %s: no order of these explains the answers:%s", sp.first, p, hps(sp.second.parts[p]).c_str(), l.port ? hp(l).c_str() : "none", s.c_str());
            }
        }
        // A part or a space that is not there has none.
        SIM_CHECK(!m->getStorageLeaderFromCache(sp.first, 99).ok(), "a leader for a part that does not exist");
        SIM_CHECK(!m->getStorageLeaderFromCache(9999, 1).ok(), "a leader for a space that does not exist");
        // Metad says what the leaders are, while they are asked for and told.
        for (int i = 0, n = 1 + choose(W, 3); i < n; i++) w.mutate(choose(W, 2) ? 9 : 7);
        int noise = choose(W, 3), out = 0;
        std::atomic<bool> stop{false};
        std::vector<std::thread> ns;
        for (int t = 0; t < noise; t++) ns.emplace_back([&] {
            while (!stop.load()) {
                int p = 1 + choose(W, 3);
                if (choose(W, 3)) {
                    auto r = m->getStorageLeaderFromCache(sp.first, p);
                    bool exists; { NoPreempt n; exists = w.cur().spaces.begin()->second.parts.count(p); }
                    if (exists) SIM_CHECK(r.ok(), "no leader for space %d part %d, which is there", sp.first, p);
                    if (r.ok()) {                             // told by metad, told by a caller, or a host of the part
                        bool fine = r.value() == HostAddr("10.0.7.1", 7);
                        NoPreempt n;
                        for (auto& v : w.hist) { auto i = v->spaces.find(sp.first); if (i == v->spaces.end()) continue; auto j = i->second.parts.find(p); if (j != i->second.parts.end()) fine |= std::find(j->second.begin(), j->second.end(), r.value()) != j->second.end(); }
                        SIM_CHECK(fine, "leader of space %d part %d is %s, never one of its hosts", sp.first, p, hp(r.value()).c_str());
                    }
                } else m->invalidStorageLeader(sp.first, p);
                sleepNs(range(T, 1000, 20000000));
            }
            NoPreempt n; ++out;
        });
        int64_t before = w.version();
        bool ok = false;
        for (int i = 0; i < 60 && !ok; i++) ok = m->refreshCache().ok();   // stalls may make metad look slow
        if (!ok) { setFaults(false); ok = m->refreshCache().ok(); setFaults(true); }
        SIM_CHECK(ok, "the cache cannot be refreshed");
        stop = true;
        SIM_CHECK(waitUntil([&] { return out == noise; }, 600 * SEC), "a caller is stuck");
        for (auto& t : ns) t.join();
        { NoPreempt n; SIM_CHECK(before == w.version(), "harness"); }
        setFaults(false);
        setSkips(false);
        sleepNs(25 * SEC);                                // a heartbeat may load once more: then all is as reported
        for (int p : {1, 2, 3}) m->invalidStorageLeader(w.cur().spaces.begin()->first, p);
        SIM_CHECK(m->refreshCache().ok(), "the cache cannot be refreshed");
        setSkips(true);
        setFaults(true);
        auto info = m->getLeaderInfo();
        SIM_CHECK(info.ok(), "no leader information");
        for (auto& s : w.cur().spaces) for (auto& p : s.second.parts) {
            auto it = s.second.leaders.find(p.first);
            bool rep = it != s.second.leaders.end() && std::find(w.cur().hosts.begin(), w.cur().hosts.end(), it->second) != w.cur().hosts.end();
            auto& lm = info.value().leaderMap_;
            auto got = lm.find({s.first, p.first});
            SIM_CHECK((got != lm.end()) == rep, "space %d part %d: metad reports %s leader, the cache has %s", s.first, p.first, rep ? "a" : "no", got != lm.end() ? hp(got->second).c_str() : "none");
            if (rep) SIM_CHECK(got->second == it->second, "space %d part %d: metad reports leader %s, the cache has %s", s.first, p.first, hp(it->second).c_str(), hp(got->second).c_str());
        }
    }
    c->tearDown();
}
