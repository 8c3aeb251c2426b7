// What storage clients learn about leaders from answers and failures.
#include "storageops.h"

SIM_SCENARIO(storage_leader) {
    auto* c = new Cluster();
    auto* s = new Stores();
    timing();
    FLAGS_storage_client_timeout_ms = 2000; FLAGS_conn_timeout_ms = 1000;
    int nio = 1 + choose(W, 3);
    c->setUp(1, 2 + choose(W, 4), nio);
    s->setUp(c);
    int spaces = 1 + choose(W, 2);
    for (int i = 0; i < spaces; i++) s->addSpace(choose(W, 2), 1 + choose(W, 5));
    setClockLimitNs(7200 * SEC);
    c->make(options(HostAddr("10.0.9.1", 1), mc::HostRole::GRAPH));
    auto* m = c->client.get();
    SIM_CHECK(m->waitForMetadReady(-1, 1), "waiting for metad for ever returned without success");
    auto* cl = new Clients(*s, *c);
    int epochs = 1 + choose(W, 3);
    bool fl = faultsOn();
    for (int e = 0; e < epochs; e++) {
        // One call at a time: after each the leaders are exactly what it could tell.
        if (fl) { setFaults(true); setSkips(true); s->quiet = false; }
        s->netFaults(15 * SEC);
        s->leaderMoves(1 + choose(W, 6), 20 * SEC);
        for (int i = 0, n = 3 + choose(W, 8); i < n; i++) {
            GraphSpaceID id = 1 + choose(W, spaces);
            auto before = m->getLeaderInfo().value().leaderMap_;
            Space sp; { NoPreempt np; sp = *s->space(id); }
            Operation* o = nullptr;
            auto r = cl->call(choose(W, NOPS), id, &o, *s);
            auto after = m->getLeaderInfo().value().leaderMap_;
            cl->judge(o, r, (int)sp.parts.size(), false);
            NoPreempt np;
            const char* name = o->method.c_str();
            std::map<PartitionID, HostAddr> where;
            std::map<PartitionID, std::pair<HostAddr, std::string>> want;     // port 0: none
            for (auto& x : o->sent) for (auto& p : x.g.parts) where[p.first] = x.to;
            auto learn = [&](const HostAddr& h, const Reply* rep) {
                for (auto& w : where) if (w.second == h) {
                    auto& t = want[w.first];
                    if (!rep) { t = {HostAddr("", 0), "the call to " + hp(h) + " failed"}; continue; }
                    auto f = rep->failed.find(w.first);
                    if (f == rep->failed.end()) { t = {h, "served by " + hp(h)}; continue; }
                    auto code = f->second.get_code();
                    auto* l = f->second.get_leader();
                    if (code == ErrorCode::E_LEADER_CHANGED && l && !l->host.empty() && l->port) { t = {*l, hp(h) + " named " + hp(*l)}; count("leaders_named"); }
                    else if (code == ErrorCode::E_LEADER_CHANGED) { t = {HostAddr("", 0), hp(h) + " does not lead and named nobody"}; count("leaders_unnamed"); }
                    else if (code == ErrorCode::E_PART_NOT_FOUND || code == ErrorCode::E_SPACE_NOT_FOUND) { t = {HostAddr("", 0), hp(h) + " does not have it"}; count("parts_unknown_to_host"); }
                    else t = {h, hp(h) + " answered with an error of its own"};
                }
            };
            std::set<HostAddr> heard;
            if (r.collect) for (auto& l : r.lat) { heard.insert(std::get<0>(l)); learn(std::get<0>(l), &s->replies[std::get<1>(l) - 1]); }
            else if (r.ok) { heard.insert(o->sent[0].to); learn(o->sent[0].to, &s->replies[r.serial - 1]); }
            for (auto& x : o->sent) if (!heard.count(x.to)) { learn(x.to, nullptr); count("failed_calls"); }
            for (auto& p : sp.parts) {
                auto b = before.find({id, p.first}), a = after.find({id, p.first});
                HostAddr was = b == before.end() ? HostAddr("", 0) : b->second, is = a == after.end() ? HostAddr("", 0) : a->second;
                auto w = where.find(p.first);
                if (w != where.end()) {
                    if (was.port) SIM_CHECK(w->second == was, "%s: partition %d was sent to %s, its leader is known to be %s", name, p.first, hp(w->second).c_str(), hp(was).c_str());
                    else SIM_CHECK(std::find(p.second.begin(), p.second.end(), w->second) != p.second.end(), "%s: partition %d was sent to %s, which does not have it", name, p.first, hp(w->second).c_str());
                    auto& t = want[p.first];
                    SIM_CHECK(is == t.first, "%s: partition %d: %s, and when the caller has the result its leader is %s instead of %s", name, p.first, t.second.c_str(), is.port ? hp(is).c_str() : "unknown", t.first.port ? hp(t.first).c_str() : "unknown");
                } else if (was.port) SIM_CHECK(is == was, "%s: partition %d was not asked, and its leader changed from %s to %s", name, p.first, hp(was).c_str(), is.port ? hp(is).c_str() : "unknown");
                else SIM_CHECK(!is.port || std::find(p.second.begin(), p.second.end(), is) != p.second.end(), "%s: partition %d was not asked, and its leader is now %s", name, p.first, hp(is).c_str());
            }
            for (auto& b : before) if (b.first.first != id) SIM_CHECK(after.count(b.first) && after.at(b.first) == b.second, "%s on space %d changed a leader of space %d", name, id, b.first.first);
            count("storage_ops");
        }
        // Many at a time, with moves and failures, and then only until the right server is found.
        int threads = choose(W, 4), done = 0;
        std::vector<std::thread> ts;
        auto until = std::make_shared<std::atomic<bool>>(false);
        for (int t = 0; t < threads; t++) ts.emplace_back([&] {
            for (int i = 0; i < 30 && !until->load(); i++) { Operation* o = nullptr; cl->call(choose(W, NOPS), 1 + choose(W, spaces), &o, *s); sleepNs(range(T, 1000, 2 * SEC)); }
            NoPreempt np; ++done;
        });
        sleepNs(range(T, 0, 20 * SEC));
        c->settle(); s->heal();
        until->store(true);
        SIM_CHECK(waitUntil([&] { return done == threads; }, 600 * SEC), "a caller is stuck");
        for (auto& t : ts) t.join();
        for (int i = 0, n = choose(W, 3); i < n; i++) c->w.mutate(choose(W, 2) ? 7 : 9);
        s->heal();
        sleepNs(30 * SEC);
        done = 0;
        int find = 1 + choose(W, 3);
        // Each connection a crash left behind may fail once more, and makes the client forget leaders.
        int most = 4 + 3 * nio * (int)s->hosts.size();
        ts.clear();
        for (int t = 0; t < find; t++) ts.emplace_back([&, t] {
            for (GraphSpaceID id = 1; id <= spaces; id++) {
                int parts; { NoPreempt np; parts = (int)s->space(id)->parts.size(); }
                for (int p = 1; p <= parts; p++) {
                    int i = 0;
                    std::string last;
                    for (bool ok = false; !ok; i++) {
                        SIM_CHECK(i < most, "space %d partition %d: its leader is not found in %d attempts, although nothing changes and nothing fails; %s", id, p, most, last.c_str());
                        Operation* o = s->begin("scanVertex", id);
                        sc::ScanVertexRequest q; q.set_space_id(id); q.set_part_id(p); q.set_cursor("o" + std::to_string(o->id) + ".c");
                        auto r = cl->single(o, cl->graph.scanVertex(q));
                        NoPreempt np;
                        ok = r.ok && s->replies[r.serial - 1].failed.empty();
                        last = o->sent.empty() ? "not sent: " + r.err : "asked " + hp(o->sent[0].to) + (r.ok ? "" : ": " + r.err);
                        if (ok) SIM_CHECK((o->sent[0].to == s->leader[Part{id, p}]), "harness");
                    }
                    count("leaders_found");
                }
            }
            // A fan-out finds them all, and nothing fails any more.
            for (GraphSpaceID id = 1; id <= spaces; id++) {
                bool ok = false;
                for (int i = 0; !ok; i++) {
                    Operation* o = nullptr;
                    auto r = cl->call(LOOKUP, id, &o, *s);
                    ok = r.succeeded;
                    SIM_CHECK(ok || i < most, "space %d: nothing changes and nothing fails, and %d requests for all partitions did not succeed: %s", id, most, Clients::codes(r.failed).c_str());
                }
            }
            NoPreempt np; ++done; (void)t;
        });
        SIM_CHECK(waitUntil([&] { return done == find; }, 600 * SEC), "a caller is stuck");
        for (auto& t : ts) t.join();
    }
    delete cl;
    c->tearDown();
}
