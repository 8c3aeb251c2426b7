#pragma once
// MetaClient against a simulated metad cluster: the local copy of the catalogue.
#include "metad.h"

using namespace metad;
using nebula::meta::MetaClient;
using nebula::meta::MetaClientOptions;
DECLARE_int32(heartbeat_interval_secs);
DECLARE_int32(meta_client_retry_times);
DECLARE_int32(meta_client_retry_interval_secs);
DECLARE_int32(meta_client_timeout_ms);

#include "stubs_meta.h"

namespace {
// One question about the catalogue, its answer in a version of it, and the
// client's answer.  "-" is "no such thing".
struct Q { int kind; int a = 0, b = 0, c = 0; std::string s; HostAddr h; bool operator<(const Q& o) const { return std::tie(kind, a, b, c, s, h.host, h.port) < std::tie(o.kind, o.a, o.b, o.c, o.s, o.h.host, o.h.port); } };
enum { SpaceId, SpaceName, VidLen, VidType, Desc, Isolation, PartsNum, PartHosts_, Term, CheckPart, CheckSpace, PartsOn,
       SchemaId, SchemaName, SchemaVer_, SchemaAt, AllVer, AllLatest, EdgeNames,
       IndexByName, IndexById, IndexSchema, Indexes_, CheckIndex,
       ListenHost, ListenWhere, ListenInfo, Roles, Auth, Shadow, FtClients, FtAll, FtSpace, FtSchema, FtName, Hosts, NKINDS };
const char* kindName(int k) {
    static const char* n[] = {"id of space", "name of space", "vid length", "vid type", "space properties", "isolation level", "number of parts", "part hosts", "term", "part on host", "space on host", "parts on host",
        "schema id", "schema name", "latest schema version", "schema", "all schema versions", "all latest schemas", "edge names",
        "index by name", "index by id", "schema of index", "indexes", "index check",
        "listener parts on host", "listener host", "listener of part", "roles", "password check", "account check", "full-text clients", "full-text indexes", "full-text indexes of space", "full-text index of schema", "full-text index", "storage hosts", "", "schema by name", "full-text index of schema"};
    return n[k];
}
std::string hp(const HostAddr& h) { return h.host + ":" + std::to_string(h.port); }
std::string join(std::vector<std::string> v, bool sorted = false) { if (sorted) std::sort(v.begin(), v.end()); std::string r; for (auto& x : v) r += x + ","; return r; }
std::string hps(const std::vector<HostAddr>& v) { std::vector<std::string> r; for (auto& h : v) r.push_back(hp(h)); return join(r); }
std::string descStr(const mc::SpaceDesc& d) { return d.get_space_name() + "/" + std::to_string(d.get_partition_num()) + "/" + std::to_string((int)d.get_vid_type().get_type()) + "/" + *d.comment_ref(); }
std::string schemaStr(const mc::Schema& s, int v) {
    std::string r = "v" + std::to_string(v) + ":";
    for (auto& c : s.get_columns()) r += c.get_name() + "/" + std::to_string((int)c.get_type().get_type()) + (c.nullable_ref().has_value() && *c.nullable_ref() ? "/null" : "") + ";";
    auto& p = s.get_schema_prop();
    return r + (p.ttl_duration_ref().has_value() ? std::to_string(*p.ttl_duration_ref()) : "");
}
std::string schemaStr(const nebula::meta::NebulaSchemaProvider* s) {
    if (!s) return "-";
    std::string r = "v" + std::to_string(s->getVersion()) + ":";
    for (size_t i = 0; i < s->getNumFields(); i++) r += std::string(s->getFieldName(i)) + "/" + std::to_string((int)s->getFieldType(i)) + (s->field(i)->nullable() ? "/null" : "") + ";";
    auto p = s->getProp();
    return r + (p.ttl_duration_ref().has_value() ? std::to_string(*p.ttl_duration_ref()) : "");
}
std::string schemaId(const mc::SchemaID& s) { return s.getType() == mc::SchemaID::Type::edge_type ? std::to_string(s.get_edge_type()) : s.getType() == mc::SchemaID::Type::tag_id ? std::to_string(-s.get_tag_id()) : "none"; }
std::string indexStr(const mc::IndexItem& i) {
    return std::to_string(i.get_index_id()) + "/" + i.get_index_name() + "/" + schemaId(i.get_schema_id()) + "/" + *i.comment_ref();
}
std::string ftStr(const mc::FTIndex& i) { return std::to_string(i.get_space_id()) + "/" + schemaId(i.get_depend_schema()) + "/" + std::to_string(i.get_fields().size()); }
std::string ftStr(const State::Ft& f) { return std::to_string(f.space) + "/" + std::to_string(f.edge ? f.id : -f.id) + "/" + std::to_string(f.nf); }

std::string truth(const State& st, const Q& q) {
    const Space* s = nullptr;
    auto it = st.spaces.find(q.a);
    if (it != st.spaces.end()) s = &it->second;
    std::vector<std::string> v;
    switch (q.kind) {
    case SpaceId: for (auto& x : st.spaces) if (x.second.name == q.s) return std::to_string(x.first); return "-";
    case SpaceName: return s ? s->name : "-";
    case VidLen: return s ? std::to_string(s->vidLen) : "-";
    case VidType: return s ? std::to_string((int)(s->vidInt ? mc::PropertyType::INT64 : mc::PropertyType::FIXED_STRING)) : "-";
    case Desc: return s ? descStr(descOf(*s)) : "-";
    case Isolation: return s ? std::to_string((int)(s->edgeIsolation ? mc::IsolationLevel::TOSS : mc::IsolationLevel::DEFAULT)) : "-";
    case PartsNum: return s ? std::to_string(s->parts.size()) : "-";
    case PartHosts_: return s && s->parts.count(q.b) ? hps(s->parts.at(q.b)) : "-";
    case Term: return s && s->terms.count(q.b) ? std::to_string(s->terms.at(q.b)) : "-1";
    case CheckPart: { if (!s || !s->parts.count(q.b)) return "-"; auto& p = s->parts.at(q.b); return std::find(p.begin(), p.end(), q.h) != p.end() ? "yes" : "-"; }
    case CheckSpace: if (s) for (auto& p : s->parts) if (std::find(p.second.begin(), p.second.end(), q.h) != p.second.end()) return "yes"; return "-";
    case PartsOn: if (s) for (auto& p : s->parts) if (std::find(p.second.begin(), p.second.end(), q.h) != p.second.end()) v.push_back(std::to_string(p.first) + "=" + hps(p.second)); return v.empty() ? "-" : join(v, true);
    case SchemaId: if (s) for (auto& x : s->schemas[q.c]) if (x.second.name == q.s) return std::to_string(x.first); return "-";
    case SchemaName: return s && s->schemas[q.c].count(q.b) ? s->schemas[q.c].at(q.b).name : "-";
    case SchemaVer_: return s && s->schemas[q.c].count(q.b) ? std::to_string(s->schemas[q.c].at(q.b).versions.size() - 1) : "-";
    case SchemaAt: { if (!s || !s->schemas[q.c & 1].count(q.b)) return "-"; auto& d = s->schemas[q.c & 1].at(q.b); int ver = (q.c >> 1) - 1; if (ver >= (int)d.versions.size()) return "-"; if (ver < 0) ver = (int)d.versions.size() - 1; return schemaStr(d.versions[ver], ver); }
    case AllVer: if (!s) return "-"; for (auto& x : s->schemas[q.c]) for (size_t i = 0; i < x.second.versions.size(); i++) v.push_back(std::to_string(x.first) + "." + std::to_string(i) + "=" + schemaStr(x.second.versions[i], (int)i)); return join(v, true);
    case AllLatest: if (!s) return "-"; for (auto& x : s->schemas[q.c]) v.push_back(std::to_string(x.first) + "=" + schemaStr(x.second.versions.back(), (int)x.second.versions.size() - 1)); return join(v, true);
    case EdgeNames: if (!s) return "-"; for (auto& x : s->schemas[1]) v.push_back(x.second.name); return join(v, true);
    case IndexByName: if (s) for (auto& x : s->indexes[q.c]) if (x.second.name == q.s) return indexStr(indexItem(q.c, x.first, x.second)); return "-";
    case IndexById: return s && s->indexes[q.c].count(q.b) ? indexStr(indexItem(q.c, q.b, s->indexes[q.c].at(q.b))) : "-";
    case IndexSchema: if (s) for (auto& x : s->indexes[q.c]) if (x.second.name == q.s) return std::to_string(x.second.schema); return "-";
    case Indexes_: if (!s) return "-"; for (auto& x : s->indexes[q.c]) v.push_back(indexStr(indexItem(q.c, x.first, x.second))); return join(v, true);
    case CheckIndex: return s && s->indexes[q.c].count(q.b) ? "yes" : "-";
    case ListenHost: if (s) for (auto& l : s->listeners) if (l.second == q.h) v.push_back(std::to_string(l.first)); return v.empty() ? "-" : join(v, true);
    case ListenWhere: return s && s->listeners.count(q.b) ? hp(s->listeners.at(q.b)) : "-";
    case ListenInfo: return s && s->listeners.count(q.b) ? hp(s->listeners.at(q.b)) + ",": "-";
    case Roles: { auto r = st.roles.find(q.s); if (r != st.roles.end() && st.users.count(q.s)) for (auto& x : r->second) v.push_back(std::to_string(x.first) + "=" + std::to_string(x.second)); return v.empty() ? "-" : join(v, true); }
    case Auth: { auto u = st.users.find(q.s); return u != st.users.end() && u->second == "p" + std::to_string(q.a) ? "yes" : "-"; }
    case Shadow: return st.users.count(q.s) ? "yes" : "-";
    case FtClients: return hps(st.ft);
    case FtAll: for (auto& f : st.ftIndexes) v.push_back(f.first + "=" + ftStr(f.second)); return join(v, true);
    case FtSpace: for (auto& f : st.ftIndexes) if (f.second.space == q.a) v.push_back(f.first + "=" + ftStr(f.second)); return join(v, true);
    case FtSchema: return "?";
    case FtName: { auto f = st.ftIndexes.find(q.s); return f != st.ftIndexes.end() && f->second.space == q.a ? ftStr(f->second) : "-"; }
    case Hosts: return hps(st.hosts);
    }
    harnessError("unknown question");
}
template <class R> std::string err(const R& r) { return r.status().toString().find("Not ready!") != std::string::npos ? "!" : "-"; }
std::string ask(MetaClient* m, const Q& q) {
    std::vector<std::string> v;
#define GET(expr, ...) { auto r = expr; if (!r.ok()) return err(r); auto& x = r.value(); (void)x; __VA_ARGS__ }
    switch (q.kind) {
    case SpaceId: GET(m->getSpaceIdByNameFromCache(q.s), return std::to_string(x);)
    case SpaceName: GET(m->getSpaceNameByIdFromCache(q.a), return x;)
    case VidLen: GET(m->getSpaceVidLen(q.a), return std::to_string(x);)
    case VidType: GET(m->getSpaceVidType(q.a), return std::to_string((int)x);)
    case Desc: GET(m->getSpaceDesc(q.a), return descStr(x);)
    case Isolation: GET(m->getIsolationLevel(q.a), return std::to_string((int)x);)
    case PartsNum: GET(m->partsNum(q.a), return std::to_string(x);)
    case PartHosts_: GET(m->getPartHostsFromCache(q.a, q.b), SIM_CHECK(x.spaceId_ == q.a && x.partId_ == q.b, "part hosts of another part"); return hps(x.hosts_);)
    case Term: return std::to_string(m->getTermFromCache(q.a, q.b));
    case CheckPart: return m->checkPartExistInCache(q.h, q.a, q.b).ok() ? "yes" : "-";
    case CheckSpace: return m->checkSpaceExistInCache(q.h, q.a).ok() ? "yes" : "-";
    case PartsOn: { auto r = m->getPartsMapFromCache(q.h); auto it = r.find(q.a); if (it != r.end()) for (auto& p : it->second) { SIM_CHECK(p.second.spaceId_ == q.a && p.second.partId_ == p.first, "parts map of a host is mixed up"); v.push_back(std::to_string(p.first) + "=" + hps(p.second.hosts_)); } return v.empty() ? "-" : join(v, true); }
    case SchemaId: if (q.c) GET(m->getEdgeTypeByNameFromCache(q.a, q.s), return std::to_string(x);) else GET(m->getTagIDByNameFromCache(q.a, q.s), return std::to_string(x);)
    case SchemaName: if (q.c) GET(m->getEdgeNameByTypeFromCache(q.a, q.b), return x;) else GET(m->getTagNameByIdFromCache(q.a, q.b), return x;)
    case SchemaVer_: if (q.c) GET(m->getLatestEdgeVersionFromCache(q.a, q.b), return std::to_string(x);) else GET(m->getLatestTagVersionFromCache(q.a, q.b), return std::to_string(x);)
    case SchemaAt: if (q.c & 1) GET(m->getEdgeSchemaFromCache(q.a, q.b, (q.c >> 1) - 1), return schemaStr(x.get());) else GET(m->getTagSchemaFromCache(q.a, q.b, (q.c >> 1) - 1), return schemaStr(x.get());)
    case AllVer: {
        auto f = [&](auto& mm) { for (auto& e : mm) for (size_t i = 0; i < e.second.size(); i++) v.push_back(std::to_string(e.first) + "." + std::to_string(i) + "=" + schemaStr(e.second[i].get())); return join(v, true); };
        if (q.c) GET(m->getAllVerEdgeSchema(q.a), return f(x);) else GET(m->getAllVerTagSchema(q.a), return f(x);)
    }
    case AllLatest: {
        auto f = [&](auto& mm) { for (auto& e : mm) v.push_back(std::to_string(e.first) + "=" + schemaStr(e.second.get())); return join(v, true); };
        if (q.c) GET(m->getAllLatestVerEdgeSchemaFromCache(q.a), return f(x);) else GET(m->getAllLatestVerTagSchema(q.a), return f(x);)
    }
    case EdgeNames: GET(m->getAllEdgeFromCache(q.a), return join(x, true);)
    case IndexByName: if (q.c) GET(m->getEdgeIndexByNameFromCache(q.a, q.s), return indexStr(*x);) else GET(m->getTagIndexByNameFromCache(q.a, q.s), return indexStr(*x);)
    case IndexById: if (q.c) GET(m->getEdgeIndexFromCache(q.a, q.b), return indexStr(*x);) else GET(m->getTagIndexFromCache(q.a, q.b), return indexStr(*x);)
    case IndexSchema: if (q.c) GET(m->getRelatedEdgeTypeByIndexNameFromCache(q.a, q.s), return std::to_string(x);) else GET(m->getRelatedTagIDByIndexNameFromCache(q.a, q.s), return std::to_string(x);)
    case Indexes_: { auto f = [&](auto& l) { for (auto& i : l) v.push_back(indexStr(*i)); return join(v, true); }; if (q.c) GET(m->getEdgeIndexesFromCache(q.a), return f(x);) else GET(m->getTagIndexesFromCache(q.a), return f(x);) }
    case CheckIndex: return (q.c ? m->checkEdgeIndexed(q.a, q.b) : m->checkTagIndexed(q.a, q.b)).ok() ? "yes" : "-";
    case ListenHost: GET(m->getListenersBySpaceHostFromCache(q.a, q.h), for (auto& p : x) v.push_back(std::to_string(p.first)); return v.empty() ? "-" : join(v, true);)
    case ListenWhere: GET(m->getListenerHostsBySpacePartType(q.a, q.b, mc::ListenerType::ELASTICSEARCH), return hp(x);)
    case ListenInfo: GET(m->getListenerHostTypeBySpacePartType(q.a, q.b), for (auto& l : x) v.push_back(hp(l.first)); return join(v, true);)
    case Roles: { auto r = m->getRolesByUserFromCache(q.s); for (auto& x : r) v.push_back(std::to_string(x.get_space_id()) + "=" + std::to_string((int)x.get_role_type())); return v.empty() ? "-" : join(v, true); }
    case Auth: return m->authCheckFromCache(q.s, "p" + std::to_string(q.a)) ? "yes" : "-";
    case Shadow: return m->checkShadowAccountFromCache(q.s) ? "yes" : "-";
    case FtClients: GET(m->getFTClientsFromCache(), for (auto& c : x) v.push_back(hp(c.get_host())); return join(v);)
    case FtAll: GET(m->getFTIndexesFromCache(), for (auto& f : x) v.push_back(f.first + "=" + ftStr(f.second)); return join(v, true);)
    case FtSpace: GET(m->getFTIndexBySpaceFromCache(q.a), for (auto& f : x) v.push_back(f.first + "=" + ftStr(f.second)); return join(v, true);)
    case FtSchema: return "?";
    case FtName: GET(m->getFTIndexByNameFromCache(q.a, q.s), return ftStr(x);)
    case Hosts: GET(m->getStorageHosts(), return hps(x);)
    }
    harnessError("unknown question");
#undef GET
}
std::string qStr(const Q& q) { return std::string(kindName(q.kind)) + " (" + std::to_string(q.a) + ", " + std::to_string(q.b) + ", " + std::to_string(q.c) + ", '" + q.s + "', " + hp(q.h) + ")"; }

const int64_t SEC = 1000000000LL;
struct Cluster {
    virtual ~Cluster() = default;
    virtual std::string reply(const Q& q) { return ask(client.get(), q); }                 // how the question is put
    virtual std::string wanted(const State& st, const Q& q) { return truth(st, q); }
    virtual bool fits(const State& st, const Q& q, const std::string& got) { return wanted(st, q) == got; }
    World w;
    std::shared_ptr<folly::IOThreadPoolExecutor> io;
    std::unique_ptr<MetaClient> client;
    std::map<Q, int> floor;                  // the oldest version the next answer may come from
    int start = 0;
    bool ready = false;

    void setUp(int nServers, int nStorage, int nio) {
        for (int i = 0; i < nStorage; i++) w.storage.emplace_back("10.0.1." + std::to_string(i + 1), 44500);
        simnet::start();
        w.up(nServers);
        w.init();
        io = std::make_shared<folly::IOThreadPoolExecutor>(nio);
    }
    void make(const MetaClientOptions& o) { start = w.version(); client = std::make_unique<MetaClient>(io, w.addrs(), o); }
    Q question(int kind = NKINDS) {
        Q q; q.kind = kind == NKINDS ? choose(W, NKINDS) : kind;
        int ids = w.nextId + 1;
        q.a = 1 + choose(W, ids);
        { NoPreempt np; auto& sp = w.cur().spaces; if (!sp.empty() && choose(W, 4)) { auto it = sp.begin(); std::advance(it, choose(W, (uint32_t)sp.size())); q.a = it->first; } }
        q.c = choose(W, 2); q.h = w.someHost();
        auto nm = [&](const char* p) { return std::string(p) + std::to_string(choose(W, w.names)); };
        switch (q.kind) {
        case SpaceId: q.s = "s" + std::to_string(q.a); break;
        case PartHosts_: case Term: case CheckPart: case ListenWhere: case ListenInfo: q.b = 1 + choose(W, 3); break;
        case SchemaId: q.s = nm(q.c ? "e" : "t"); break;
        case SchemaName: case SchemaVer_: q.b = some(q.a, q.c, false); break;
        case SchemaAt: q.b = some(q.a, q.c, false); q.c |= choose(W, 4) << 1; break;
        case IndexByName: case IndexSchema: q.s = nm(q.c ? "ei" : "ti"); break;
        case IndexById: case CheckIndex: q.b = some(q.a, q.c, true); break;
        case Roles: case Shadow: q.s = nm("u"); break;
        case Auth: q.s = nm("u"); q.a = choose(W, 9); break;
        case FtName: q.s = nm("ft"); break;
        }
        return q;
    }
    int some(int space, int k, bool index) {
        NoPreempt np;
        auto it = w.cur().spaces.find(space);
        int rnd = 1 + choose(W, (uint32_t)w.nextId + 1);
        if (it == w.cur().spaces.end() || choose(W, 5) == 0) return rnd;
        auto f = [&](auto& m) { if (m.empty()) return rnd; auto i = m.begin(); std::advance(i, choose(W, (uint32_t)m.size())); return (int)i->first; };
        return index ? f(it->second.indexes[k]) : f(it->second.schemas[k]);
    }
    // An answer must be that of one version, not older than one already seen and
    // not older than `oldest`, and not from the future.
    std::string read(const Q& q, int oldest) {
        int lo;
        bool was;
        { NoPreempt np; was = ready; auto it = floor.find(q); lo = it == floor.end() ? start : it->second; }
        lo = std::max(lo, oldest);
        std::string got = reply(q);
        if (got == "!") { SIM_CHECK(!was, "%s: not ready after it was", qStr(q).c_str()); return got; }
        if (!was && (got == "-" || (q.kind == Term && got == "-1"))) return got;   // nothing to know yet
        count(got == "-" ? "answers_none" : "answers");
        std::vector<std::shared_ptr<State>> h;
        { NoPreempt np; h = w.hist; }
        for (int v = lo; v < (int)h.size(); v++)
            if (fits(*h[v], q, got)) { NoPreempt np; auto& f = floor[q]; f = std::max(f, v); return got; }
        std::string want = wanted(*h[lo], q), last = wanted(*h.back(), q);
        violation("%s: answered '%s', which it never was from version %d ('%s') to %d ('%s')", qStr(q).c_str(), got.c_str(), lo, want.c_str(), (int)h.size() - 1, last.c_str());
    }
    void exact(const Q& q) {
        std::string got = reply(q), want = wanted(w.cur(), q);
        SIM_CHECK(fits(w.cur(), q, got), "%s: still '%s' although it has been '%s' for long and metad could be reached", qStr(q).c_str(), got.c_str(), want.c_str());
    }
    // Every question there is, after the dust has settled.
    void exactAll() {
        std::vector<Q> qs;
        auto add = [&](int kind, int a = 0, int b = 0, int c = 0, std::string s = "", HostAddr h = HostAddr()) { Q q; q.kind = kind; q.a = a; q.b = b; q.c = c; q.s = std::move(s); q.h = h; qs.push_back(q); };
        for (int id = 1; id < w.nextId; id++) {
            bool space = false;
            for (auto& s : w.hist) space |= s->spaces.count(id) > 0;
            if (!space) continue;
            add(SpaceId, id, 0, 0, "s" + std::to_string(id));
            for (int k : {SpaceName, VidLen, VidType, Desc, Isolation, PartsNum, EdgeNames, FtSpace}) add(k, id);
            for (int p = 1; p <= 4; p++) for (int k : {PartHosts_, Term, ListenWhere, ListenInfo}) add(k, id, p);
            for (auto& h : w.storage) { add(CheckSpace, id, 0, 0, "", h); add(PartsOn, id, 0, 0, "", h); add(ListenHost, id, 0, 0, "", h); for (int p = 1; p <= 3; p++) add(CheckPart, id, p, 0, "", h); }
            for (int k = 0; k < 2; k++) {
                add(AllVer, id, 0, k); add(AllLatest, id, 0, k); add(Indexes_, id, 0, k);
                for (int n = 0; n < 3; n++) { auto i = std::to_string(n); add(SchemaId, id, 0, k, (k ? "e" : "t") + i); add(IndexByName, id, 0, k, (k ? "ei" : "ti") + i); add(IndexSchema, id, 0, k, (k ? "ei" : "ti") + i); }
                for (int x = 1; x < w.nextId; x++) { add(SchemaName, id, x, k); add(SchemaVer_, id, x, k); add(IndexById, id, x, k); add(CheckIndex, id, x, k); for (int v = 0; v < 3; v++) add(SchemaAt, id, x, k | v << 1); }
            }
            for (int n = 0; n < 3; n++) add(FtName, id, 0, 0, "ft" + std::to_string(n));
        }
        for (int n = 0; n < 3; n++) { auto u = "u" + std::to_string(n); add(Roles, 0, 0, 0, u); add(Shadow, 0, 0, 0, u); for (int p = 0; p < 9; p++) add(Auth, p, 0, 0, u); }
        add(FtClients); add(FtAll); add(Hosts);
        for (auto& q : qs) exact(q);
    }
    void netFaults() {
        auto& f = simnet::faults;
        if (!faultsOn()) return;
        simnet::at(range(T, 20 * SEC, 90 * SEC), [] { simnet::faults = simnet::Faults(); });   // a load is many calls: with faults at this rate it may never succeed
        static const uint32_t r[] = {0, 500, 4000};
        f.connectRefused = r[choose(W, 3)]; f.connectLost = r[choose(W, 3)]; f.requestLost = r[choose(W, 3)];
        f.replyLost = r[choose(W, 3)]; f.reset = r[choose(W, 3)]; f.slow = r[choose(W, 2)]; f.appError = r[choose(W, 2)];
    }
    void metadFaults(int n, int64_t within) {
        for (int i = 0; i < n; i++) {
            auto* s = w.servers[choose(W, (uint32_t)w.servers.size())].get();
            int kind = choose(W, 5);
            int64_t at = range(T, 0, within), dur = range(T, 100000000, 15000000000LL);
            if (kind == 0) simnet::at(at, [=] { if (!faultsOn()) return; fault("server_crash", 1, 1); simnet::crash(s->addr.host, s->addr.port); simnet::at(dur, [=] { simnet::listen(s->addr.host, s->addr.port, s); }); });
            else if (kind == 1) simnet::at(at, [=] { if (!faultsOn()) return; fault("net_partition", 1, 1); simnet::blackhole(s->addr.host, s->addr.port, true); simnet::at(dur, [=] { simnet::blackhole(s->addr.host, s->addr.port, false); }); });
            else if (kind == 2) simnet::at(at, [=] { if (!faultsOn()) return; fault("server_bounce", 1, 1); simnet::crash(s->addr.host, s->addr.port); simnet::listen(s->addr.host, s->addr.port, s); });
            else if (kind == 3) simnet::at(at, [=] { if (!faultsOn()) return; fault("leader_change", 1, 1); w.elect(s->no); });
            else simnet::at(at, [=] { if (!faultsOn()) return; fault("no_leader", 1, 1); w.elect(-1); simnet::at(dur, [=] { if (w.leader < 0) w.elect(s->no); }); });
        }
    }
    void settle() { setFaults(false); setSkips(false); simnet::faults = simnet::Faults(); w.heal(); }
    void tearDown() { client->stop(); client.reset(); io->stop(); simnet::stop(); }
};
MetaClientOptions options(const HostAddr& local, mc::HostRole role) {
    MetaClientOptions o;
    o.localHost_ = local; o.role_ = role; o.skipConfig_ = true; o.clusterId_ = 4242;
    return o;
}
void timing() {
    FLAGS_heartbeat_interval_secs = 10; FLAGS_meta_client_timeout_ms = 2000;
    FLAGS_meta_client_retry_interval_secs = 1; FLAGS_meta_client_retry_times = choose(W, 4);
    if (choose(W, 3)) FLAGS_meta_client_retry_times = 3;
}
}  // namespace

