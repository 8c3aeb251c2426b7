// The listener of the meta client: what it is told adds up to what the cache has.
#include "metacluster.h"
using nebula::meta::ListenerHosts;
using nebula::meta::PartHosts;

namespace {
using Key = std::pair<GraphSpaceID, PartitionID>;
struct Recorder : nebula::meta::MetaChangedListener {
    Cluster* c = nullptr;
    HostAddr local;
    std::set<GraphSpaceID> spaces, lspaces;
    std::map<Key, std::vector<HostAddr>> parts;
    std::map<std::pair<Key, int>, std::vector<HostAddr>> listeners;
    bool registered = false;
    int inside = 0, slow = 0, calls = 0;
    std::mutex mu; std::condition_variable cv;
    struct In {
        Recorder* r;
        explicit In(Recorder* x, const char* what) : r(x) {
            { NoPreempt np; ++r->inside; SIM_CHECK(r->registered, "%s: called after the listener was unregistered", what); count("callbacks"); }
            bool now; { NoPreempt np; now = r->calls && --r->calls == 0; }
            if (now) { std::lock_guard<std::mutex> l(r->mu); r->cv.notify_all(); }
            if (r->slow && choose(W, 2)) sleepNs(range(T, 100, r->slow)); else yieldPoint();
        }
        ~In() noexcept(false) { NoPreempt np; SIM_CHECK(r->registered, "the listener was unregistered while a callback ran"); --r->inside; }
    };
    // Part hosts told must be those of some version of the catalogue.
    void known(GraphSpaceID s, PartitionID p, const std::vector<HostAddr>& hosts) {
        for (auto& v : c->w.hist) { auto i = v->spaces.find(s); if (i == v->spaces.end()) continue; auto j = i->second.parts.find(p); if (j != i->second.parts.end() && j->second == hosts) return; }
        violation("space %d part %d is told to be on %s, where it never was", s, p, hps(hosts).c_str());
    }
    bool here(const std::vector<HostAddr>& v) { return std::find(v.begin(), v.end(), local) != v.end(); }
    void onSpaceAdded(GraphSpaceID s, bool l) override {
        In in(this, "onSpaceAdded"); NoPreempt np;
        SIM_CHECK((l ? lspaces : spaces).insert(s).second, "space %d is added again%s", s, l ? " (listener)" : "");
    }
    void onSpaceRemoved(GraphSpaceID s, bool l) override {
        In in(this, "onSpaceRemoved"); NoPreempt np;
        SIM_CHECK((l ? lspaces : spaces).erase(s), "space %d is removed but was not there%s", s, l ? " (listener)" : "");
        if (!l) for (auto& p : parts) SIM_CHECK(p.first.first != s, "space %d is removed before its part %d", s, p.first.second);
        else for (auto& p : listeners) SIM_CHECK(p.first.first.first != s, "space %d is removed before the listener of its part %d", s, p.first.first.second);
    }
    void onSpaceOptionUpdated(GraphSpaceID, const std::unordered_map<std::string, std::string>&) override { violation("an option of a space is updated though metad has no configuration"); }
    void onPartAdded(const PartHosts& p) override {
        In in(this, "onPartAdded"); NoPreempt np;
        SIM_CHECK(spaces.count(p.spaceId_), "part %d is added to space %d, which is not there", p.partId_, p.spaceId_);
        SIM_CHECK(parts.emplace(Key(p.spaceId_, p.partId_), p.hosts_).second, "space %d part %d is added again", p.spaceId_, p.partId_);
        SIM_CHECK(here(p.hosts_), "space %d part %d is added, but is on %s", p.spaceId_, p.partId_, hps(p.hosts_).c_str());
        known(p.spaceId_, p.partId_, p.hosts_);
    }
    void onPartRemoved(GraphSpaceID s, PartitionID p) override {
        In in(this, "onPartRemoved"); NoPreempt np;
        SIM_CHECK(parts.erase(Key(s, p)), "space %d part %d is removed but was not there", s, p);
    }
    void onPartUpdated(const PartHosts& p) override {
        In in(this, "onPartUpdated"); NoPreempt np;
        auto it = parts.find(Key(p.spaceId_, p.partId_));
        SIM_CHECK(it != parts.end(), "space %d part %d is updated but was not there", p.spaceId_, p.partId_);
        SIM_CHECK(it->second != p.hosts_, "space %d part %d is updated to what it was", p.spaceId_, p.partId_);
        SIM_CHECK(here(p.hosts_), "space %d part %d is updated, but is on %s", p.spaceId_, p.partId_, hps(p.hosts_).c_str());
        known(p.spaceId_, p.partId_, p.hosts_);
        it->second = p.hosts_;
        count("parts_updated");
    }
    void fetchLeaderInfo(std::unordered_map<GraphSpaceID, std::vector<mc::LeaderInfo>>& leaders) override {
        In in(this, "fetchLeaderInfo"); NoPreempt np;
        for (auto& p : parts) { mc::LeaderInfo l; l.set_part_id(p.first.second); l.set_term(1); leaders[p.first.first].push_back(l); }
        SIM_CHECK(registered, "fetchLeaderInfo: the listener was unregistered meanwhile");
        count("leaders_fetched");
    }
    void onListenerAdded(GraphSpaceID s, PartitionID p, const ListenerHosts& h) override {
        In in(this, "onListenerAdded"); NoPreempt np;
        SIM_CHECK(lspaces.count(s), "a listener is added to space %d, which is not there", s);
        SIM_CHECK(listeners.emplace(std::make_pair(Key(s, p), (int)h.type_), h.peers_).second, "a listener of space %d part %d is added while there is one (told of peers %s)", s, p, hps(listeners[{Key(s, p), (int)h.type_}]).c_str());
        known(s, p, h.peers_);
        count("listeners_added");
    }
    void onListenerRemoved(GraphSpaceID s, PartitionID p, mc::ListenerType t) override {
        In in(this, "onListenerRemoved"); NoPreempt np;
        SIM_CHECK(listeners.erase(std::make_pair(Key(s, p), (int)t)), "a listener of space %d part %d is removed but was not there", s, p);
    }
    void onCheckRemoteListeners(GraphSpaceID s, PartitionID p, const std::vector<HostAddr>& l) override {
        In in(this, "onCheckRemoteListeners");
        { NoPreempt np; SIM_CHECK(parts.count(Key(s, p)), "remote listeners of space %d part %d, which is not here", s, p); }
        auto got = ask(c->client.get(), [&] { Q q; q.kind = ListenInfo; q.a = s; q.b = p; return q; }());
        if (got != "!") { std::string told = l.empty() ? "-" : join([&] { std::vector<std::string> v; for (auto& h : l) v.push_back(hp(h)); return v; }(), true); SIM_CHECK(told == got, "remote listeners of space %d part %d are told to be %s; the cache has %s", s, p, told.c_str(), got.c_str()); }
        if (choose(W, 4) == 0) adds("when asked to check");
        count("remote_checked");
    }
    // What was told adds up to what the cache has (asked while no load runs, or in one).
    void adds(const char* when) {
        auto pm = c->client->getPartsMapFromCache(local);
        auto lm = c->client->getListenersByHostFromCache(local);
        NoPreempt np;
        std::map<Key, std::vector<HostAddr>> want;
        std::set<GraphSpaceID> ws;
        for (auto& s : pm) { ws.insert(s.first); for (auto& p : s.second) want[Key(s.first, p.first)] = p.second.hosts_; }
        SIM_CHECK(spaces == ws, "%s: the listener knows %zu spaces, the cache has %zu here", when, spaces.size(), ws.size());
        for (auto& p : want) { auto it = parts.find(p.first); SIM_CHECK(it != parts.end() && it->second == p.second, "%s: space %d part %d is on %s; the listener was told %s", when, p.first.first, p.first.second, hps(p.second).c_str(), it == parts.end() ? "of no such part" : hps(it->second).c_str()); }
        SIM_CHECK(parts.size() == want.size(), "%s: the listener knows %zu parts, the cache has %zu here", when, parts.size(), want.size());
        if (!lm.ok()) return;
        size_t n = 0;
        for (auto& s : lm.value()) {
            SIM_CHECK(lspaces.count(s.first), "%s: the listener does not know space %d", when, s.first);
            for (auto& p : s.second) for (auto& h : p.second) {
                ++n;
                auto it = listeners.find({Key(s.first, p.first), (int)h.type_});
                SIM_CHECK(it != listeners.end() && it->second == h.peers_, "%s: the listener of space %d part %d has peers %s; told were %s", when, s.first, p.first, hps(h.peers_).c_str(), it == listeners.end() ? "of no such listener" : hps(it->second).c_str());
            }
        }
        SIM_CHECK(listeners.size() == n, "%s: %zu listeners told, the cache has %zu here", when, listeners.size(), n);
        SIM_CHECK(lspaces.size() == lm.value().size(), "%s: %zu spaces with listeners told, the cache has %zu", when, lspaces.size(), lm.value().size());
    }
    void fromCache() {                                    // what a store does when it registers late
        auto pm = c->client->getPartsMapFromCache(local);
        auto lm = c->client->getListenersByHostFromCache(local);
        NoPreempt np;
        spaces.clear(); parts.clear(); lspaces.clear(); listeners.clear();
        for (auto& s : pm) { spaces.insert(s.first); for (auto& p : s.second) parts[Key(s.first, p.first)] = p.second.hosts_; }
        for (auto& s : lm.value()) { lspaces.insert(s.first); for (auto& p : s.second) for (auto& h : p.second) listeners[{Key(s.first, p.first), (int)h.type_}] = h.peers_; }
    }
};
}  // namespace

SIM_SCENARIO(meta_listener) {
    auto* c = new Cluster();
    timing();
    c->setUp(1 + choose(W, 2), 2 + choose(W, 2), 1 + choose(W, 2));
    auto& w = c->w;
    static const int themes[3][6] = {{-1, -1, -1, -1, -1, -1}, {0, 1, 7, 7, 8, 7}, {19, 20, 21, 7, 0, 19}};
    const int* th = themes[choose(W, 3)];
    auto change = [&w, th] { w.mutate(th[choose(W, 6)]); };
    for (int i = 0, n = choose(W, 25); i < n; i++) change();
    c->netFaults();
    setClockLimitNs(7200 * SEC);
    auto* r = new Recorder();
    r->c = c; r->local = w.storage[0]; r->slow = choose(W, 2) ? 200000 : 0;
    c->make(options(r->local, choose(W, 4) ? mc::HostRole::STORAGE : mc::HostRole::GRAPH));
    auto* cl = c->client.get();
    bool late = choose(W, 2);
    if (!late) { r->registered = true; cl->registerListener(r); }
    SIM_CHECK(cl->waitForMetadReady(-1, 1), "waiting for metad for ever returned without success");
    if (late) { r->fromCache(); r->registered = true; cl->registerListener(r); }
    int64_t span = 60 * SEC;
    if (faultsOn()) c->metadFaults(choose(W, 4), span);
    int nmut = 1 + choose(W, 30);
    note("early=%d changes=%d storage=%zu", !late, nmut, w.storage.size());
    for (int i = 0; i < nmut; i++) simnet::at(range(T, 1000, span), change);
    int rounds = choose(W, 3) ? 1 : 0;
    for (int i = 0; i < rounds; i++) {                    // unregistered in the middle of whatever goes on
        if (choose(W, 3) == 0) sleepNs(range(T, 1000, 20 * SEC));
        else {                                            // just when a callback begins
            { NoPreempt np; r->calls = 1 + choose(W, 4); }
            std::unique_lock<std::mutex> l(r->mu);
            r->cv.wait_for(l, std::chrono::seconds(25), [&] { NoPreempt np; return r->calls == 0; });
            l.unlock();
            if (choose(W, 3) == 0) sleepNs(range(T, 1, 300000));
        }
        cl->unRegisterListener();
        { NoPreempt np; r->registered = false; SIM_CHECK(r->inside == 0, "a callback is still running after the listener was unregistered"); count("unregistered"); }
        break;
    }
    bool gone = rounds > 0;
    for (int i = 0, n = choose(W, 3); i < n; i++) { sleepNs(range(T, 1000, 15 * SEC)); cl->refreshCache(); }
    sleepNs(span);
    c->settle();
    sleepNs(75 * SEC);
    if (gone) {                                           // a new one, now that nothing changes
        auto* n = new Recorder();
        n->c = c; n->local = r->local; n->slow = r->slow;
        n->fromCache(); n->registered = true;
        cl->registerListener(n); r = n;
        for (int i = 0, k = 1 + choose(W, 5); i < k; i++) { change(); if (choose(W, 2)) sleepNs(range(T, 1000, 12 * SEC)); }
        sleepNs(40 * SEC);
    }
    r->adds("at the end");
    cl->unRegisterListener();
    { NoPreempt np; r->registered = false; SIM_CHECK(r->inside == 0, "a callback is still running after the listener was unregistered"); }
    c->tearDown();
}
