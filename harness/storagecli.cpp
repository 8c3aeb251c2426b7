// Graph and key-value storage clients: where requests go, what the result says.
#include "storageops.h"

SIM_SCENARIO(storage_fanout) {
    auto* c = new Cluster();
    auto* s = new Stores();
    timing();
    FLAGS_storage_client_timeout_ms = 2000; FLAGS_conn_timeout_ms = 1000;
    c->setUp(1, 1 + choose(W, 5), 1 + choose(W, 3));
    s->setUp(c);
    int spaces = 1 + choose(W, 2);
    for (int i = 0; i < spaces; i++) s->addSpace(choose(W, 2), 1 + choose(W, 7));
    setClockLimitNs(7200 * SEC);
    c->make(options(HostAddr("10.0.9.1", 1), mc::HostRole::GRAPH));
    SIM_CHECK(c->client->waitForMetadReady(-1, 1), "waiting for metad for ever returned without success");
    auto* cl = new Clients(*s, *c);
    s->netFaults(40 * SEC);
    s->leaderMoves(choose(W, 6), 30 * SEC);
    for (int i = 0, n = choose(W, 3); i < n; i++) simnet::at(range(T, 0, 40 * SEC), [=] { c->w.mutate(choose(W, 2) ? 7 : 9); });
    int threads = 1 + choose(W, 4), per = 2 + choose(W, 6), done = 0;
    bool faulty = faultsOn();
    if (!faulty) setSkips(false);                             // then nothing may time out
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++) ts.emplace_back([&] {
        for (int i = 0; i < per; i++) {
            GraphSpaceID id = 1 + choose(W, spaces);
            if (choose(W, 12) == 0) id = 77;                  // there is none
            int parts; { NoPreempt np; auto* sp = s->space(id); parts = sp ? (int)sp->parts.size() : 0; }
            int kind = choose(W, NOPS);
            Operation* o = nullptr;
            int64_t t0 = monoNs(), stolen = stolenNs();
            auto r = cl->call(kind, id, &o, *s);
            cl->judge(o, r, parts, !faulty);
            int64_t took = monoNs() - t0 - (stolenNs() - stolen);
            SIM_CHECK(took < 30 * SEC, "%s took %.3f s", o->method.c_str(), took / 1e9);
            count("storage_ops");
            if (choose(W, 2)) sleepNs(range(T, 1000, 3 * SEC));
        }
        NoPreempt np; ++done;
    });
    SIM_CHECK(waitUntil([&] { return done == threads; }, 3600 * SEC), "a caller is stuck");
    for (auto& t : ts) t.join();
    // Nothing more is sent or told about calls that have ended.
    size_t sent = 0;
    { NoPreempt np; for (auto& o : s->ops) sent += o->sent.size(); }
    sleepNs(range(T, 0, 20 * SEC));
    { NoPreempt np; size_t now = 0; for (auto& o : s->ops) now += o->sent.size(); SIM_CHECK(now == sent, "requests are sent for calls that have ended"); }
    c->settle();
    delete cl;
    c->tearDown();
}
