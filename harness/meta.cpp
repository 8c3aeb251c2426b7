// The meta cache: every answer is that of a version metad had.
#include "metacluster.h"

SIM_SCENARIO(meta_cache) {
    auto* c = new Cluster();
    timing();
    c->setUp(1 + choose(W, 3), 2 + choose(W, 3), 1 + choose(W, 2));
    auto& w = c->w;
    int pre = choose(W, 30);
    for (int i = 0; i < pre; i++) w.mutate();
    c->netFaults();
    setClockLimitNs(7200 * SEC);
    c->make(options(w.storage[0], choose(W, 2) ? mc::HostRole::GRAPH : mc::HostRole::STORAGE));
    int nmut = choose(W, 25), readers = 1 + choose(W, 2), nreads = 10 + choose(W, 40);
    note("servers=%zu storage=%zu changes=%d+%d readers=%d reads=%d retries=%d", w.servers.size(), w.storage.size(), pre, nmut, readers, nreads, FLAGS_meta_client_retry_times);
    if (faultsOn()) c->metadFaults(choose(W, 5), 60 * SEC);
    int64_t span = 60 * SEC;
    for (int i = 0; i < nmut; i++) simnet::at(range(T, 0, span), [&w] { w.mutate(); });
    if (choose(W, 3) == 1) {                             // a burst in the middle of a load
        for (int i = 0; i < 6; i++) simnet::at(range(T, 10 * SEC, 10 * SEC + 300000000), [&w] { w.mutate(); });
    }
    bool clean = !faultsOn();
    int done = 0;
    std::vector<std::thread> ts;
    static const char* calls[] = {"listHosts", "listTagIndexes", "listFTClients", "heartBeat", "listUsers"};
    static const int storms[] = {IndexByName, FtClients, IndexSchema, SchemaId, Roles, PartHosts_, NKINDS};
    int stormers = choose(W, 3);
    for (int t = 0; t < stormers; t++) ts.emplace_back([=, &w, &done] {   // reads just while a load is under way
        const char* call = calls[choose(W, 5)]; int kind = storms[choose(W, 7)];
        for (int i = 0; i < 4; i++) {
            auto seen = [&w, call] { NoPreempt np; return w.served[call]; };
            uint64_t was = seen();
            if (!waitUntil([&] { return w.served[call] != was; }, 25 * SEC)) continue;
            if (choose(W, 2)) sleepNs(range(T, 1, 5000000));
            for (int k = 0; k < 12; k++) { auto q = c->question(kind); c->read(q, 0); if (choose(W, 3) == 0) sleepNs(range(T, 100, 400000)); }
        }
        NoPreempt np; ++done;
    });
    for (int t = 0; t < readers; t++) ts.emplace_back([=, &w, &done] {
        for (int i = 0; i < nreads; i++) {
            sleepNs(choose(W, 3) ? range(T, 1000, 3000000) : range(T, 1000, 4 * SEC));
            auto q = c->question();
            int oldest = 0;
            if (clean && c->ready) {                     // nothing kept it from hearing of versions this old
                NoPreempt np;
                int64_t by = monoNs() - 14 * SEC;
                for (auto g = w.gone.rbegin(); g != w.gone.rend() && *g > by; ++g) by = *g - 14 * SEC;   // that load failed
                by -= stolenNs();
                for (int v = 0; v < (int)w.since.size() && w.since[v] < by; v++) oldest = v;
            }
            c->read(q, oldest);
        }
        NoPreempt np; ++done;
    });
    bool ok = c->client->waitForMetadReady(-1, 1);
    SIM_CHECK(ok, "waiting for metad for ever returned without success");
    { NoPreempt np; c->ready = true; }
    bool refresh = choose(W, 2);
    if (refresh) {
        int n = 1 + choose(W, 3);
        for (int i = 0; i < n; i++) {
            sleepNs(range(T, 1000, 20 * SEC));
            int v = w.version();
            if (!c->client->refreshCache().ok()) { count("refresh_failed"); continue; }
            count("refreshed");
            for (int k = 0; k < 3; k++) c->read(c->question(), v);   // a refresh shows all there was before it
        }
    }
    SIM_CHECK(waitUntil([&] { return done == readers + stormers; }, 3600 * SEC), "a reader is stuck");
    for (auto& t : ts) t.join();
    sleepNs(span);
    c->settle();
    sleepNs(75 * SEC);
    c->exactAll();
    for (auto& s : w.cur().spaces) for (auto& l : s.second.leaders) {
        if (std::find(w.cur().hosts.begin(), w.cur().hosts.end(), l.second) == w.cur().hosts.end()) continue;
        auto r = c->client->getStorageLeaderFromCache(s.first, l.first);
        SIM_CHECK(r.ok() && r.value() == l.second, "leader of space %d part %d: %s instead of %s reported by metad", s.first, l.first, r.ok() ? hp(r.value()).c_str() : "none", hp(l.second).c_str());
    }
    c->tearDown();
}

// The cache is asked the same again and again just while it is being replaced.
SIM_SCENARIO(meta_storm) {
    auto* c = new Cluster();
    timing();
    c->setUp(1, 2, 1);
    auto& w = c->w;
    struct Theme { int change[4]; const char* call[4]; int kind[4]; };
    static const Theme themes[] = {
        {{-1, -1, -1, -1}, {"listHosts", "getSpace", "listUsers", "listHosts"}, {NKINDS, NKINDS, NKINDS, NKINDS}},
        {{4, 4, 4, 6}, {"listFTClients", "listFTClients", "listFTIndexes", "listUsers"}, {FtClients, FtClients, FtName, FtAll}},
        {{15, 16, 17, -1}, {"listTagIndexes", "listEdgeIndexes", "listHosts", "listListener"}, {IndexByName, IndexByName, IndexSchema, Indexes_}},
        {{2, 3, 2, 3}, {"listUsers", "getUserRoles", "listFTClients", "getUserRoles"}, {Roles, Auth, Shadow, Roles}},
        {{10, 12, 14, 11}, {"listHosts", "listEdges", "listTags", "listHosts"}, {SchemaId, SchemaAt, AllVer, SchemaName}},
        {{0, 1, 7, 9}, {"listHosts", "getSpace", "listHosts", "listHosts"}, {SpaceId, PartHosts_, Term, PartsOn}},
    };
    const Theme& th = themes[choose(W, 6)];
    int pre = 5 + choose(W, 40);
    for (int i = 0; i < pre; i++) w.mutate();
    if (choose(W, 2)) { w.names = 16; pre = choose(W, 30); for (int i = 0; i < pre; i++) w.mutate(th.change[choose(W, 2)]); }
    setClockLimitNs(7200 * SEC);
    c->make(options(w.storage[0], mc::HostRole::GRAPH));
    SIM_CHECK(c->client->waitForMetadReady(-1, 1), "waiting for metad for ever returned without success");
    c->ready = true;
    simnet::faults.minNs = 1000; simnet::faults.maxNs = 60000;
    int rounds = 1 + choose(W, 3), n = 1 + choose(W, 3), done = 0;
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++) ts.emplace_back([=, &w, &th, &done] {
        const char* call = th.call[choose(W, 4)];            // what is replaced as the answer to a call
        std::vector<Q> qs; int kind = th.kind[choose(W, 4)];
        for (int i = 0; i < 4; i++) qs.push_back(c->question(kind));
        int tight = choose(W, 2) * 8;
        for (int i = 0; i < rounds; i++) {
            uint64_t was; { NoPreempt np; was = w.served[call]; }
            waitUntil([&] { return w.served[call] != was; }, 12 * SEC);
            if (choose(W, 4)) sleepNs(range(T, 1, 60000));
            std::string last[4];
            for (int k = 0; k < 60; k++) { for (int j = 0; j < tight && stepCount() < 2000000; j++) ask(c->client.get(), qs[k % 4]); auto x = c->read(qs[k % 4], 0); if (k > 3 && x != last[k % 4]) count("changed_under_reader"); last[k % 4] = x; if (choose(W, 4) == 1) sleepNs(range(T, 100, 100000)); }
        }
        NoPreempt np; ++done;
    });
    for (int i = 0; i < rounds; i++) { int m = 1 + choose(W, 6); for (int k = 0; k < m; k++) w.mutate(th.change[choose(W, 4)]); sleepNs(range(T, 9 * SEC, 12 * SEC)); }
    SIM_CHECK(waitUntil([&] { return done == n; }, 3600 * SEC), "a reader is stuck");
    for (auto& t : ts) t.join();
    c->settle();
    c->tearDown();
}
