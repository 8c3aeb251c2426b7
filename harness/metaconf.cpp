// Configuration kept by metad and applied to the flags of a process.
#include "simfs.h"
#include "metacluster.h"
using nebula::Value;
DEFINE_string(pid_file, "pids/nebula-storaged.pid", "");
DEFINE_int32(wal_ttl, 14400, "");
DEFINE_bool(accept_partial_success, false, "");
DEFINE_double(sim_ratio, 0.25, "");
DEFINE_string(sim_label, "one", "");
DEFINE_int64(sim_fixed, 7, "");
DEFINE_int64(sim_default, 8, "");
DEFINE_string(rocksdb_db_options, "{}", "");
DEFINE_string(rocksdb_column_family_options, "{\"cf_a\":\"4\",\"cf_b\":\"true\"}", "");
DECLARE_string(gflags_mode_json);

namespace {
using Opts = std::map<std::string, std::string>;
const char* NAMES[] = {"wal_ttl", "accept_partial_success", "sim_ratio", "sim_label", "rocksdb_db_options", "rocksdb_column_family_options"};
bool nested(const std::string& n) { return n.compare(0, 7, "rocksdb") == 0; }
// What a value of metad's is as text and back: nothing here uses the code under test.
std::string raw(const Value& v) { return v.isStr() ? v.getStr() : v.isBool() ? (v.getBool() ? "true" : "false") : v.isInt() ? std::to_string(v.getInt()) : "?"; }
Opts optsOf(const Value& v) { Opts o; for (auto& k : v.getMap().kvs) o[k.first] = raw(k.second); return o; }
bool parse(const std::string& s, Opts* o) {               // {"k":"v",...} with spaces
    size_t i = 0;
    auto ws = [&] { while (i < s.size() && isspace((unsigned char)s[i])) i++; };
    auto str = [&](std::string* r) { ws(); if (i >= s.size() || s[i] != '"') return false; size_t j = s.find('"', i + 1); if (j == std::string::npos) return false; *r = s.substr(i + 1, j - i - 1); i = j + 1; return true; };
    auto chr = [&](char c) { ws(); if (i < s.size() && s[i] == c) { i++; return true; } return false; };
    if (!chr('{')) return false;
    if (chr('}')) return true;
    do { std::string k, v; if (!str(&k) || !chr(':') || !str(&v)) return false; (*o)[k] = v; } while (chr(','));
    if (!chr('}')) return false;
    ws();
    return i == s.size();
}
bool is(const std::string& name, const std::string& flag, const Value& v) {
    if (nested(name)) { Opts o; return v.isMap() && parse(flag, &o) && o == optsOf(v); }
    if (v.isFloat()) return std::abs(std::stod(flag) - v.getFloat()) < 1e-9;
    return flag == raw(v);
}
std::string text(const Value& v) { if (v.isMap()) { std::string r; for (auto& k : optsOf(v)) r += k.first + "=" + k.second + " "; return "{" + r + "}"; } return v.isFloat() ? std::to_string(v.getFloat()) : raw(v); }
std::string flag(const char* n) { std::string s; SIM_CHECK(gflags::GetCommandLineOption(n, &s), "harness: no flag %s", n); return s; }
Value some(int i) {
    switch (i) {
    case 0: return Value((int64_t)choose(W, 100000));
    case 1: return Value(choose(W, 2) == 1);
    case 2: return Value(choose(W, 64) / 8.0);
    case 3: return Value("label " + std::to_string(choose(W, 50)));
    }
    nebula::Map m;
    const char* p = i == 4 ? "db_" : "cf_";
    for (int k = 0, n = choose(W, 4); k < n; k++) {
        std::string key = std::string(p) + (char)('a' + choose(W, 4));
        switch (choose(W, 4)) { case 0: m.kvs[key] = Value((int64_t)choose(W, 100)); break; case 1: m.kvs[key] = Value(choose(W, 2) == 1); break; default: m.kvs[key] = Value(std::to_string(choose(W, 100))); }
    }
    return Value(m);
}
struct Told : nebula::meta::MetaChangedListener {
    Cluster* c = nullptr;
    std::vector<std::pair<GraphSpaceID, Opts>> told;
    void onSpaceAdded(GraphSpaceID, bool) override {}
    void onSpaceRemoved(GraphSpaceID, bool) override {}
    void onSpaceOptionUpdated(GraphSpaceID s, const std::unordered_map<std::string, std::string>& o) override {
        NoPreempt np;
        Opts got(o.begin(), o.end());
        bool fine = false;
        for (int i = 4; i < 6; i++) for (auto& v : c->w.configLog[{(int)mc::ConfigModule::STORAGE, NAMES[i]}]) fine |= v.isMap() && optsOf(v) == got;
        std::string t; for (auto& k : got) t += k.first + "=" + k.second + " ";
        SIM_CHECK(fine, "space %d is told options {%s}, which metad never had", s, t.c_str());
        told.emplace_back(s, got);
        count("options_told");
    }
    void onPartAdded(const nebula::meta::PartHosts&) override {}
    void onPartRemoved(GraphSpaceID, PartitionID) override {}
    void onPartUpdated(const nebula::meta::PartHosts&) override {}
    void fetchLeaderInfo(std::unordered_map<GraphSpaceID, std::vector<mc::LeaderInfo>>&) override {}
    void onListenerAdded(GraphSpaceID, PartitionID, const nebula::meta::ListenerHosts&) override {}
    void onListenerRemoved(GraphSpaceID, PartitionID, mc::ListenerType) override {}
    void onCheckRemoteListeners(GraphSpaceID, PartitionID, const std::vector<HostAddr>&) override {}
};
}  // namespace

SIM_SCENARIO(meta_config) {
    fsInit();
    fsMkdir("/sim/conf");
    FLAGS_gflags_mode_json = "/sim/conf/gflags.json";
    fsWriteFile("/sim/conf/gflags.json", "{ // what may change\n \"MUTABLE\": [\"sim_ratio\", \"sim_label\",\n\"wal_ttl\"], # and\n \"NESTED\": [\"rocksdb_db_options\"] }\n");
    auto* c = new Cluster();
    timing();
    c->setUp(1 + choose(W, 2), 2, 1 + choose(W, 2));
    auto& w = c->w;
    for (int i = 0, n = choose(W, 6); i < n; i++) w.mutate(choose(W, 2) ? 0 : -1);
    setClockLimitNs(36000 * SEC);
    const int S = (int)mc::ConfigModule::STORAGE;
    std::map<std::string, std::string> others;            // no other flag ever changes
    auto put = [&](int module, const std::string& name, mc::ConfigMode mode, Value v) {
        mc::ConfigItem it; it.set_module(static_cast<mc::ConfigModule>(module)); it.set_name(name); it.set_mode(mode); it.set_value(v);
        w.hist.back()->configs[{module, name}] = it;
        w.configLog[{module, name}].push_back(v);
    };
    auto* initial = new std::map<std::string, std::string>();
    for (int i = 0; i < 6; i++) {
        (*initial)[NAMES[i]] = flag(NAMES[i]);
        if (choose(W, 3) == 0) put(S, NAMES[i], mc::ConfigMode::MUTABLE, some(i));   // metad has had it before
    }
    auto kept = [&](const char* n) { others[n] = flag(n); };
    put(S, "sim_fixed", static_cast<mc::ConfigMode>(choose(W, 2)), Value((int64_t)99)); kept("sim_fixed");
    if (choose(W, 2)) put(S, "no_such_flag", mc::ConfigMode::MUTABLE, Value((int64_t)99));
    put((int)mc::ConfigModule::GRAPH, "sim_default", mc::ConfigMode::MUTABLE, Value((int64_t)99)); kept("sim_default");
    put((int)mc::ConfigModule::META, "wal_ttl", mc::ConfigMode::MUTABLE, Value((int64_t)99));
    for (const char* n : {"heartbeat_interval_secs", "meta_client_retry_times", "meta_client_timeout_ms", "meta_client_retry_interval_secs", "pid_file", "gflags_mode_json"}) kept(n);
    auto* registered = new int(0);
    w.onRegConfig = [=](const mc::RegConfigReq& r) {
        ++*registered;
        std::map<std::string, const mc::ConfigItem*> got;
        for (auto& i : r.get_items()) {
            SIM_CHECK(got.emplace(i.get_name(), &i).second, "%s is registered twice", i.get_name().c_str());
            SIM_CHECK((int)i.get_module() == S, "%s is registered for module %d", i.get_name().c_str(), (int)i.get_module());
            SIM_CHECK(i.get_mode() == mc::ConfigMode::MUTABLE, "%s is registered with mode %d", i.get_name().c_str(), (int)i.get_mode());
        }
        for (auto& i : *initial) {
            SIM_CHECK(got.count(i.first), "%s may change but is not registered", i.first.c_str());
            SIM_CHECK(is(i.first, i.second, got[i.first]->get_value()), "%s is registered as '%s', the flag is '%s'", i.first.c_str(), text(got[i.first]->get_value()).c_str(), i.second.c_str());
        }
        for (const char* n : {"sim_fixed", "sim_default", "pid_file", "meta_client_timeout_ms"}) SIM_CHECK(!got.count(n), "%s is registered, but may not change", n);
    };
    c->netFaults();
    auto* l = new Told();
    l->c = c;
    auto o = options(w.storage[0], mc::HostRole::STORAGE);
    o.skipConfig_ = false;
    c->make(o);
    auto* m = c->client.get();
    bool early = choose(W, 2);
    if (early) m->registerListener(l);
    SIM_CHECK(m->waitForMetadReady(-1, 1), "waiting for metad for ever returned without success");
    if (!early) m->registerListener(l);
    std::map<std::string, size_t> floor;
    auto look = [&](bool settled, const char* when) {
        for (auto& k : others) SIM_CHECK(flag(k.first.c_str()) == k.second, "%s: %s was '%s' and is '%s', but metad may not change it", when, k.first.c_str(), k.second.c_str(), flag(k.first.c_str()).c_str());
        for (auto* n : NAMES) {
            std::string f = flag(n);
            NoPreempt np;
            auto& log = w.configLog[{S, n}];
            if (settled) SIM_CHECK(!log.empty() && is(n, f, log.back()), "%s: %s is '%s', metad has had '%s' for long", when, n, f.c_str(), log.empty() ? "nothing" : text(log.back()).c_str());
            if (!floor.count(n) && f == (*initial)[n]) continue;
            size_t i = floor.count(n) ? floor[n] : 0;
            while (i < log.size() && !is(n, f, log[i])) i++;
            SIM_CHECK(i < log.size(), "%s: %s is '%s', which metad did not have since version %zu of %zu%s%s", when, n, f.c_str(), floor.count(n) ? floor[n] : 0, log.size(), log.empty() ? "" : ", now ", log.empty() ? "" : text(log.back()).c_str());
            floor[n] = i;
        }
        count("flags_looked_at");
    };
    auto change = [&w](int i) { mc::ConfigItem it; it.set_module(mc::ConfigModule::STORAGE); it.set_name(NAMES[i]); it.set_value(some(i)); if (w.setConfig(it)) note("metad: %s is %s", NAMES[i], text(it.get_value()).c_str()); };
    int64_t span = 60 * SEC;
    if (faultsOn()) c->metadFaults(choose(W, 4), span);
    for (int i = 0, n = choose(W, 10); i < n; i++) { int what = choose(W, 6); simnet::at(range(T, 1000, span), [=] { change(what); }); }
    for (int i = 0, n = choose(W, 4); i < n; i++) simnet::at(range(T, 1000, span), [&w] { w.mutate(choose(W, 2) ? 0 : -1); });
    for (int i = 0, n = 3 + choose(W, 8); i < n; i++) {
        sleepNs(range(T, 1000, 2 * span / n));
        if (choose(W, 4) == 0) {
            int what = choose(W, 6); Value v = some(what);
            auto r = m->setConfig(mc::ConfigModule::STORAGE, NAMES[what], v).get();
            if (r.ok()) { NoPreempt np; bool there = false; for (auto& x : w.configLog[{S, NAMES[what]}]) there |= x == v; SIM_CHECK(there, "%s was set to '%s' but metad never had that", NAMES[what], text(v).c_str()); }
        }
        look(false, "meanwhile");
    }
    c->settle();
    sleepNs(75 * SEC);
    look(true, "at rest");
    SIM_CHECK(*registered > 0, "nothing was ever registered");
    for (int i = 0, n = 1 + choose(W, 3); i < n; i++) {   // one change at a time, and who is told
        int what = choose(W, 3) ? 4 + choose(W, 2) : choose(W, 6);
        size_t before; std::string was = flag(NAMES[what]);
        { NoPreempt np; before = l->told.size(); }
        change(what);
        sleepNs(30 * SEC);
        look(true, "after one change");
        NoPreempt np;
        Value v = w.configLog[{S, NAMES[what]}].back();
        Opts old;
        bool same = !nested(NAMES[what]) || (parse(was, &old) && old == optsOf(v));
        std::map<GraphSpaceID, int> n2;
        for (size_t k = before; k < l->told.size(); k++) { SIM_CHECK(nested(NAMES[what]) && l->told[k].second == optsOf(v), "space %d is told of other options than those that changed", l->told[k].first); ++n2[l->told[k].first]; }
        for (auto& s : w.cur().spaces) SIM_CHECK(n2[s.first] <= 1 && (same || n2[s.first]), "space %d is told %d times of the change of %s", s.first, n2[s.first], NAMES[what]);
    }
    m->unRegisterListener();
    c->tearDown();
}
