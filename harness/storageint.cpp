// The internal storage client: forwards to the leader of a partition, and asks
// again for as long as somebody else leads it.
#include "storageops.h"

namespace {
struct Ended { bool ok = false; ErrorCode code = ErrorCode::SUCCEEDED; std::string value; };
struct Internal {
    Stores& s; st::InternalStorageClient cl; std::shared_ptr<folly::IOThreadPoolExecutor> io;
    Internal(Stores& stores, Cluster& c) : s(stores), cl(c.io, c.client.get()), io(c.io) {}
    Ended call(GraphSpaceID space, int parts, Operation** out, int64_t limit) {
        auto* evb = choose(W, 2) ? nullptr : io->getEventBase();
        bool get = choose(W, 2);
        Operation* o = *out = s.begin(get ? "getValue" : "forwardTransaction", space);
        Ended e;
        if (get) {
            std::string vid = "o" + std::to_string(o->id) + ".";
            size_t len = 8 + choose(W, 25);
            while (vid.size() < 12 + choose(W, 9) || vid.size() < len) vid += (char)('a' + choose(W, 26));
            std::string id = vid.substr(0, len);
            PartitionID p = parts ? Stores::partOf(id, parts) : 0;
            std::string key = std::string("\x01\0\0\x02", 4) + vid;
            { NoPreempt np; o->onPart = p; }
            o->same = [=](const void* q) { auto& r = *static_cast<const sc::GetValueRequest*>(q); return r.get_space_id() == space && r.get_part_id() == p && r.get_key() == key; };
            auto f = cl.getValue(len, space, key, evb);
            SIM_CHECK(f.wait(std::chrono::seconds(limit / SEC)), "getValue: no result after %ld s", (long)(limit / SEC));
            auto t = std::move(f).getTry();
            SIM_CHECK(!t.hasException(), "getValue ended with an exception: %s", t.exception().what().c_str());
            if (nebula::ok(t.value())) { e.ok = true; e.value = nebula::value(t.value()); }
            else e.code = nebula::error(t.value());
        } else {
            PartitionID p = 1 + choose(W, (uint32_t)std::max(1, parts));
            bool nopart = choose(W, 16) == 0;
            if (nopart) p = 1000;
            { NoPreempt np; o->onPart = p; }
            std::string data = "data of " + std::to_string(o->id) + std::string(1 + choose(W, 40), '\0');
            int64_t txn = o->id;
            o->same = [=](const void* q) {
                auto& r = *static_cast<const sc::InternalTxnRequest*>(q);
                return r.get_space_id() == space && r.get_part_id() == p && r.get_txn_id() == txn && r.get_position() == 1 && r.get_data() == std::vector<std::vector<std::string>>{{}, {data}};
            };
            std::string give = data;
            auto f = cl.forwardTransaction(txn, space, p, std::move(give), evb);
            SIM_CHECK(f.wait(std::chrono::seconds(limit / SEC)), "forwardTransaction: no result after %ld s", (long)(limit / SEC));
            auto t = std::move(f).getTry();
            SIM_CHECK(!t.hasException(), "forwardTransaction ended with an exception: %s", t.exception().what().c_str());
            e.code = t.value();
            e.ok = e.code == ErrorCode::SUCCEEDED;
        }
        return e;
    }
    // alone: nobody else touched the leaders meanwhile; lead: who was known to lead.
    void judge(Operation* o, const Ended& e, bool known, const std::vector<HostAddr>& peers, bool alone, HostAddr lead) {
        NoPreempt np;
        const char* m = o->method.c_str();
        std::vector<const Reply*> rs;
        for (auto& r : s.replies) if (r.op == o->id) rs.push_back(&r);
        if (o->sent.empty()) {
            SIM_CHECK(!known, "%s on space %d partition %d ended without asking anybody: %d", m, o->space, o->onPart, (int)e.code);
            SIM_CHECK(!e.ok, "%s succeeded without asking anybody", m);
            if (o->space == 77) SIM_CHECK(e.code == ErrorCode::E_SPACE_NOT_FOUND, "%s: there is no such space; the result is %d", m, (int)e.code);
            count("refused");
            return;
        }
        SIM_CHECK(known, "%s on space %d partition %d, which does not exist, was sent to %s", m, o->space, o->onPart, hp(o->sent[0].to).c_str());
        size_t n = o->sent.size();
        SIM_CHECK(rs.size() <= n, "harness");
        for (size_t i = 0; i < n; i++) {
            HostAddr to = o->sent[i].to; to.port += 2;
            SIM_CHECK(std::find(peers.begin(), peers.end(), to) != peers.end() || std::find(s.hinted.begin(), s.hinted.end(), to) != s.hinted.end(), "%s: attempt %zu went to %s, no peer of space %d partition %d", m, i + 1, hp(o->sent[i].to).c_str(), o->space, o->onPart);
            if (alone && lead.port) SIM_CHECK(to == lead, "%s: attempt %zu went to %s, the leader is known to be %s", m, i + 1, hp(to).c_str(), hp(lead).c_str());
            if (i + 1 == n) break;
            SIM_CHECK(i < rs.size() && rs[i]->from == to, "%s: attempt %zu was not answered, and there is another", m, i + 1);
            auto f = rs[i]->failed.find(o->onPart);
            SIM_CHECK(f != rs[i]->failed.end() && f->second.get_code() == ErrorCode::E_LEADER_CHANGED, "%s: attempt %zu was answered with %d, and there is another", m, i + 1, f == rs[i]->failed.end() ? 0 : (int)f->second.get_code());
            SIM_CHECK(o->sent[i + 1].at - o->sent[i].at >= SEC / 2, "%s: attempts %zu and %zu are %.3f s apart", m, i + 1, i + 2, (o->sent[i + 1].at - o->sent[i].at) / 1e9);
            auto* l = f->second.get_leader();
            lead = l && !l->host.empty() && l->port ? *l : HostAddr("", 0);
            count("internal_retries");
        }
        HostAddr at = o->sent.back().to; at.port += 2;
        const Reply* last = rs.size() == n ? rs.back() : nullptr;
        if (last) SIM_CHECK(last->from == at, "harness");
        if (e.ok) {
            SIM_CHECK(last && last->failed.empty(), "%s is said to have succeeded, and %s", m, last ? "the last answer says otherwise" : "its last attempt was not answered");
            if (o->method == "getValue") SIM_CHECK(e.value == last->data, "getValue returned '%s', the leader said '%s'", hex(e.value).c_str(), last->data.c_str());
            count("internal_ok");
        } else {
            SIM_CHECK(e.code != ErrorCode::E_LEADER_CHANGED, "%s gave up because the leader changed", m);
            ErrorCode c = last && !last->failed.empty() ? last->failed.at(o->onPart).get_code() : ErrorCode::SUCCEEDED;
            if (last && c != ErrorCode::SUCCEEDED && c != ErrorCode::E_LEADER_CHANGED && c == e.code) count("internal_refused_by_leader");
            else { SIM_CHECK(lossy, "%s failed with %d without any fault", m, (int)e.code); count("internal_rpc_failures"); }
        }
    }
    bool lossy = false;
};
}  // namespace

SIM_SCENARIO(storage_internal) {
    auto* c = new Cluster();
    auto* s = new Stores();
    timing();
    FLAGS_storage_client_timeout_ms = 2000; FLAGS_conn_timeout_ms = 1000;
    int nio = 1 + choose(W, 3);
    c->setUp(1, 1 + choose(W, 4), nio);
    s->setUp(c);
    int spaces = 1 + choose(W, 2);
    for (int i = 0; i < spaces; i++) s->addSpace(choose(W, 2), 1 + choose(W, 6));
    setClockLimitNs(7200 * SEC);
    c->make(options(HostAddr("10.0.9.1", 1), mc::HostRole::STORAGE));
    auto* m = c->client.get();
    SIM_CHECK(m->waitForMetadReady(-1, 1), "waiting for metad for ever returned without success");
    auto* in = new Internal(*s, *c);
    bool faulty = faultsOn();
    if (!faulty) setSkips(false);
    in->lossy = faulty;
    auto one = [&](bool alone, int64_t limit) {
        GraphSpaceID id = choose(W, 16) ? 1 + choose(W, spaces) : 77;
        Space sp; bool there = false;
        { NoPreempt np; auto* p = s->space(id); if (p) { sp = *p; there = true; } }
        std::unordered_map<Part, HostAddr> before;
        if (alone) before = [&] { std::unordered_map<Part, HostAddr> r; for (auto& x : m->getLeaderInfo().value().leaderMap_) r[x.first] = x.second; return r; }();
        Operation* o = nullptr;
        auto e = in->call(id, there ? (int)sp.parts.size() : 0, &o, limit);
        auto p = sp.parts.find(o->onPart);
        bool known = there && p != sp.parts.end();
        auto b = before.find({id, o->onPart});
        in->judge(o, e, known, known ? p->second : std::vector<HostAddr>(), alone, b == before.end() ? HostAddr("", 0) : b->second);
        count("internal_ops");
        return std::make_pair(o, e);
    };
    for (int e = 0, epochs = 1 + choose(W, 2); e < epochs; e++) {
        if (faulty) { setFaults(true); setSkips(true); in->lossy = true; }
        s->quiet = false;
        s->netFaults(15 * SEC);
        s->leaderMoves(2 + choose(W, 8), 20 * SEC);
        simnet::at(25 * SEC, [=] { NoPreempt np; for (auto& l : s->leader) if (!l.second.port) s->elect(l.first); });
        for (int i = 0, n = 2 + choose(W, 6); i < n; i++) one(true, 300 * SEC);
        int threads = choose(W, 4), done = 0;
        std::vector<std::thread> ts;
        auto stop = std::make_shared<std::atomic<bool>>(false);
        if (threads > 1) in->lossy = true;                    // a retry keeps its IO thread for half a second
        s->leaderMoves(choose(W, 6), 15 * SEC);
        for (int t = 0; t < threads; t++) ts.emplace_back([&] {
            for (int i = 0; i < 12 && !stop->load(); i++) { one(false, 600 * SEC); if (choose(W, 2)) sleepNs(range(T, 1000, SEC)); }
            NoPreempt np; ++done;
        });
        sleepNs(range(T, 0, 15 * SEC));
        c->settle(); s->heal();
        int64_t healed = monoNs();
        stop->store(true);
        SIM_CHECK(waitUntil([&] { return done == threads; }, 60 * SEC), "nothing fails and the leaders stay where they are for %.1f s, and a call does not end", (monoNs() - healed) / 1e9);
        for (auto& t : ts) t.join();
        // Every leader is found, in a few attempts; a connection a crash left behind may fail once.
        in->lossy = faulty;
        int dead = 2 * nio * (int)s->hosts.size();
        for (GraphSpaceID id = 1; id <= spaces; id++) for (int i = 0; i < 4; i++) {
            auto r = one(true, 60 * SEC);
            NoPreempt np;
            SIM_CHECK(r.first->sent.size() <= 2, "%s needed %zu attempts although the leader stays where it is", r.first->method.c_str(), r.first->sent.size());
            if (!r.second.ok && !r.first->sent.empty()) { --i; SIM_CHECK(--dead >= 0, "nothing fails any more and %s still ends with %d", r.first->method.c_str(), (int)r.second.code); }
        }
    }
    delete in;
    c->tearDown();
}
