// Readiness and heartbeats of the meta client.
#include "simfs.h"
#include "metacluster.h"
DECLARE_string(cluster_id_path);

namespace {
struct Leaders : nebula::meta::MetaChangedListener {
    std::vector<std::pair<GraphSpaceID, mc::LeaderInfo>> now;
    std::unordered_map<GraphSpaceID, std::vector<mc::LeaderInfo>> last;   // the last answer given
    std::vector<int64_t> asked;
    void onSpaceAdded(GraphSpaceID, bool) override {}
    void onSpaceRemoved(GraphSpaceID, bool) override {}
    void onSpaceOptionUpdated(GraphSpaceID, const std::unordered_map<std::string, std::string>&) override {}
    void onPartAdded(const nebula::meta::PartHosts&) override {}
    void onPartRemoved(GraphSpaceID, PartitionID) override {}
    void onPartUpdated(const nebula::meta::PartHosts&) override {}
    void fetchLeaderInfo(std::unordered_map<GraphSpaceID, std::vector<mc::LeaderInfo>>& l) override {
        NoPreempt np;
        l.clear();
        for (auto& x : now) l[x.first].push_back(x.second);
        last = l;
        asked.push_back(monoNs());
    }
    void onListenerAdded(GraphSpaceID, PartitionID, const nebula::meta::ListenerHosts&) override {}
    void onListenerRemoved(GraphSpaceID, PartitionID, mc::ListenerType) override {}
    void onCheckRemoteListeners(GraphSpaceID, PartitionID, const std::vector<HostAddr>&) override {}
    void shuffle() {
        NoPreempt np;
        now.clear();
        for (int i = 0, n = choose(W, 4); i < n; i++) { mc::LeaderInfo l; l.set_part_id(1 + i); l.set_term(choose(W, 50)); now.emplace_back(1 + choose(W, 2), l); }
    }
};
std::string idFile() { return "/sim/data/cluster.id"; }
bool idOnDisk(nebula::ClusterID* id) {
    std::string s;
    if (!fsReadFile(idFile(), &s) || s.size() != sizeof *id) return false;
    memcpy(id, s.data(), sizeof *id);
    return true;
}
}  // namespace

SIM_SCENARIO(meta_heartbeat) {
    fsInit();
    fsMkdir("/sim/data");
    FLAGS_cluster_id_path = idFile();
    auto* c = new Cluster();
    timing();
    c->setUp(1 + choose(W, 2), 2, 1 + choose(W, 2));
    auto& w = c->w;
    for (int i = 0, n = choose(W, 5); i < n; i++) w.mutate();
    c->netFaults();
    setClockLimitNs(36000 * SEC);
    bool storage = choose(W, 4) != 0;
    HostAddr local = storage ? w.storage[0] : HostAddr("10.0.9." + std::to_string(1 + choose(W, 5)), 3699);
    bool had = storage && choose(W, 2);
    if (had) { nebula::ClusterID id = w.cluster; fsWriteFile(idFile(), std::string((const char*)&id, sizeof id)); }
    auto* l = new Leaders();
    l->shuffle();
    int interval = 1 + choose(W, 12);
    FLAGS_heartbeat_interval_secs = interval;
    const int64_t cluster = w.cluster;
    auto* sent = new std::vector<int64_t>();
    auto* quiet = new bool(false);                        // the client is stopped
    auto* listening = new int(0);                         // 0 never, 1 yes, 2 changing
    std::string sha = "sha" + std::to_string(choose(W, 100));
    bool preset = storage && !had && choose(W, 5) == 0;   // the id is given, there is no file
    auto* first = new int64_t(had || preset ? w.cluster : 0);
    // Every request the client makes, as it leaves.
    simnet::onCall() = [=](const simnet::ConnInfo&, const char* m, const void* p) {
        NoPreempt np;
        SIM_CHECK(!*quiet, "%s is sent although the client was stopped", m);
        if (strcmp(m, "MetaService.heartBeat")) return;
        auto& q = *(const mc::HBReq*)p;
        sent->push_back(monoNs());
        count("heartbeats");
        SIM_CHECK(q.get_role() == (storage ? mc::HostRole::STORAGE : mc::HostRole::GRAPH), "heartbeat with role %d", (int)q.get_role());
        SIM_CHECK(q.get_host() == local, "heartbeat from %s, which is on %s", hp(q.get_host()).c_str(), hp(local).c_str());
        SIM_CHECK(q.get_git_info_sha() == sha, "heartbeat with git sha '%s'", q.get_git_info_sha().c_str());
        if (!storage) return;
        nebula::ClusterID id = 0;
        bool file = idOnDisk(&id);
        if (file) SIM_CHECK(q.get_cluster_id() == id, "heartbeat with cluster id %ld; the file has %ld", (long)q.get_cluster_id(), (long)id);
        else SIM_CHECK(q.get_cluster_id() == (preset ? cluster : 0), "heartbeat with cluster id %ld before it is known or in the file", (long)q.get_cluster_id());
        if (*first) SIM_CHECK(q.get_cluster_id() == *first, "the cluster id was %ld and is %ld now", (long)*first, (long)q.get_cluster_id());
        else if (q.get_cluster_id()) *first = q.get_cluster_id();
        auto* parts = q.get_leader_partIds();
        if (*listening == 1) {
            SIM_CHECK(parts != nullptr, "heartbeat without the parts led");
            bool same = parts->size() == l->last.size();
            for (auto& s : l->last) { auto it = parts->find(s.first); same = same && it != parts->end() && it->second.size() == s.second.size(); if (same) for (size_t i = 0; i < s.second.size(); i++) same &= it->second[i].get_part_id() == s.second[i].get_part_id() && it->second[i].get_term() == s.second[i].get_term(); }
            SIM_CHECK(same, "heartbeat with other parts than the listener leads");
        } else if (*listening == 0) SIM_CHECK(!parts || parts->empty(), "heartbeat with parts of nobody");
    };
    auto* acked = new int(0);
    auto* heard = new int(0);
    w.onHeartbeat = [=](const mc::HBReq&, mc::HBResp&) { ++*acked; count("heartbeats_acknowledged"); };
    w.refuse = [=](const char*) { ++*heard; return ErrorCode::SUCCEEDED; };
    const bool fl = faultsOn();
    auto make = [&] {
        auto o = options(local, storage ? mc::HostRole::STORAGE : mc::HostRole::GRAPH);
        o.clusterId_ = preset ? cluster : 0; o.gitInfoSHA_ = sha;
        c->make(o);
        { NoPreempt np; *quiet = false; *listening = 0; }
        if (choose(W, 2)) { NoPreempt np; *listening = 1; }
        if (*listening) c->client->registerListener(l);
    };
    int lives = 1 + choose(W, 2);
    const int64_t tries = FLAGS_meta_client_retry_times + 1, one = tries * 3 * SEC + SEC;   // a call that fails
    for (int life = 0; life < lives; life++) {
        make();
        auto* m = c->client.get();
        if (faultsOn() && choose(W, 2)) c->metadFaults(1 + choose(W, 3), 40 * SEC);
        bool dark = faultsOn() && choose(W, 3) == 0;      // metad is away to begin with
        if (dark) { fault("server_crash", 1, 1); for (auto& s : w.servers) simnet::blackhole(s->addr.host, s->addr.port, true); }
        int64_t back = range(T, SEC, 40 * SEC);
        if (dark) simnet::at(back, [&w] { for (auto& s : w.servers) simnet::blackhole(s->addr.host, s->addr.port, false); });
        int tr = choose(W, 2) ? -1 : choose(W, 4), pause = 1 + choose(W, 3);
        bool cut = choose(W, 4) == 0;                     // stopped while it waits, or about then
        note("life %d: interval %ds, count %d, pause %ds, away %d, stopped early %d, listener %d", life, interval, tr, pause, dark, cut, *listening);
        int done = 0, stopped = 0, ok = -1, before = *heard;
        int64_t t0 = monoNs(), s0 = stolenNs(), took = 0;
        std::thread waiter([&] { bool r = m->waitForMetadReady(tr, pause); NoPreempt np; ok = r; took = monoNs() - t0; done = 1; });
        std::thread stopper;
        if (cut) {
            int64_t in = choose(W, 2) ? range(T, 0, 200000000) : range(T, 0, 30 * SEC);
            int how = choose(W, 3);
            stopper = std::thread([&, in, how] {
                if (how == 0) sleepNs(in);
                else if (how == 1) { waitUntil([&] { NoPreempt np; return *heard > before || done; }, 60 * SEC); sleepNs(in % 2000000); }
                else { waitUntil([&] { return m->getStorageHosts().ok() || done; }, 60 * SEC); if (in % 3 == 0) sleepNs(in % 500000); }
                m->stop();
                NoPreempt np; stopped = 1;
            });
        }
        SIM_CHECK(waitUntil([&] { NoPreempt np; return done && (!cut || stopped); }, 3000 * SEC), "waiting for metad (count %d%s) does not end", tr, cut ? ", stopped" : "");
        waiter.join();
        if (cut) stopper.join();
        int64_t stolen = stolenNs() - s0;
        if (ok) {
            SIM_CHECK(*heard > before, "ready, but metad answered nothing");
            SIM_CHECK(m->getStorageHosts().ok(), "ready, but the cache does not answer");
        } else if (!cut) {
            SIM_CHECK(tr >= 0, "gave up though it was to wait for ever");
            count("gave_up");
        }
        if (tr >= 0 && !faultCount("slow_reply")) SIM_CHECK(took <= (tr + 1) * (int64_t)pause * SEC + (tr + 1) * 40 * one + stolen, "waiting took %.1f s with %d tries", took / 1e9, tr);
        if (!cut) {
            for (int i = 0, n = choose(W, 4); i < n; i++) {
                sleepNs(range(T, 1000, 2 * interval * SEC));
                l->shuffle();
                if (choose(W, 3) == 0) w.mutate();
            }
            c->settle();
            if (dark) for (auto& s : w.servers) simnet::blackhole(s->addr.host, s->addr.port, false);
            // Whatever was: ready again in time, and heartbeats at the interval.
            sleepNs((interval + 2) * SEC + 45 * one);
            SIM_CHECK(m->getStorageHosts().ok(), "metad can be reached again for long, but the client is not ready");
            if (choose(W, 2)) { w.mutate(); l->shuffle(); }
            int64_t from = monoNs();
            size_t i; { NoPreempt np; i = sent->size(); }
            int64_t span = (2 + choose(W, 3)) * (interval + 2) * SEC, st0 = stolenNs();
            sleepNs(span);
            NoPreempt np;
            int64_t prev = from - 1, slack = stolenNs() - st0 + 3 * SEC;
            bool seen = i > 0;
            if (seen) prev = (*sent)[i - 1];
            for (; i < sent->size(); prev = (*sent)[i++]) {
                int64_t gap = (*sent)[i] - prev;
                SIM_CHECK(!seen || gap >= interval * SEC, "the next heartbeat comes after %.3f s, the interval is %d s", gap / 1e9, interval);
                SIM_CHECK(gap <= interval * SEC + slack, "no heartbeat for %.3f s, the interval is %d s and nothing is wrong", gap / 1e9, interval);
                seen = true;
            }
            SIM_CHECK(monoNs() - prev <= interval * SEC + slack, "no heartbeat for %.3f s, the interval is %d s and nothing is wrong", (monoNs() - prev) / 1e9, interval);
            count("cadence_checked");
        }
        if (storage && !preset) {
            nebula::ClusterID id = 0; bool there = idOnDisk(&id);
            if (there) SIM_CHECK(id == cluster, "the cluster id in the file is %ld, the first one heard was %ld", (long)id, (long)cluster);
            else SIM_CHECK(cut, "heartbeats go well but the cluster id is not in the file");
        }
        m->stop();
        { NoPreempt np; *quiet = true; }
        if (choose(W, 2)) sleepNs(range(T, 0, 40 * SEC));
        if (*listening) m->unRegisterListener();
        if (choose(W, 3) == 0) m->stop();
        c->client.reset();
        if (choose(W, 2)) sleepNs(range(T, 0, 20 * SEC));
        nebula::ClusterID id;
        if (choose(W, 3) == 0 && (preset || (storage && idOnDisk(&id)))) { NoPreempt np; w.cluster = cluster + 1 + life; count("another_cluster"); }   // whose id is not taken over
        setFaults(fl); setSkips(true);
        if (life + 1 < lives) c->netFaults();
    }
    c->io->stop(); simnet::stop();
}
