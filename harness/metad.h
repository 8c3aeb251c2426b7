// A simulated metad cluster: servers sharing one versioned catalogue, one of
// them the leader.  Every version the catalogue ever had is kept.
#pragma once
#include "sim.h"
#include "simnet.h"
#include "common/base/Base.h"
#include <folly/executors/IOThreadPoolExecutor.h>
#include "common/clients/meta/MetaClient.h"
#include "common/interface/gen-cpp2/MetaServiceAsyncClient.h"

namespace metad {
using namespace sim;
using nebula::HostAddr;
using nebula::GraphSpaceID;
using nebula::PartitionID;
using nebula::cpp2::ErrorCode;
namespace mc = nebula::meta::cpp2;

struct SchemaDef { std::string name; std::vector<mc::Schema> versions; };
struct IndexDef { std::string name; int32_t schema; int rev; };
struct Space {
    std::string name; int vidLen = 8; bool vidInt = false; bool edgeIsolation = false; std::string comment;
    std::map<PartitionID, std::vector<HostAddr>> parts;
    std::map<PartitionID, int64_t> terms;
    std::map<PartitionID, HostAddr> leaders;
    std::map<int32_t, SchemaDef> schemas[2];      // tags, edges
    std::map<int32_t, IndexDef> indexes[2];
    std::map<PartitionID, HostAddr> listeners;     // of the one type there is
};
struct State {
    std::map<GraphSpaceID, Space> spaces;
    std::map<std::string, std::string> users;
    std::map<std::string, std::map<GraphSpaceID, int>> roles;
    std::vector<HostAddr> ft;
    struct Ft { GraphSpaceID space; bool edge; int32_t id; int nf; };
    std::map<std::string, Ft> ftIndexes;
    std::vector<HostAddr> hosts;
    std::map<std::pair<int, std::string>, mc::ConfigItem> configs;
};

struct World;
struct Server : mc::MetaServiceSvIf {
    World* w = nullptr; int no = 0; HostAddr addr; HostAddr hint;
    template <class R> bool ok(R& resp, const char* method);
    const State& st() const;
    void heartBeat(mc::HBResp& resp, const mc::HBReq& req) override;
    void listUsers(mc::ListUsersResp& resp, const mc::ListUsersReq&) override;
    void getUserRoles(mc::ListRolesResp& resp, const mc::GetUserRolesReq& req) override;
    void listFTClients(mc::ListFTClientsResp& resp, const mc::ListFTClientsReq&) override;
    void listFTIndexes(mc::ListFTIndexesResp& resp, const mc::ListFTIndexesReq&) override;
    void listSpaces(mc::ListSpacesResp& resp, const mc::ListSpacesReq&) override;
    void getSpace(mc::GetSpaceResp& resp, const mc::GetSpaceReq& req) override;
    void getPartsAlloc(mc::GetPartsAllocResp& resp, const mc::GetPartsAllocReq& req) override;
    void listTags(mc::ListTagsResp& resp, const mc::ListTagsReq& req) override;
    void listEdges(mc::ListEdgesResp& resp, const mc::ListEdgesReq& req) override;
    void listTagIndexes(mc::ListTagIndexesResp& resp, const mc::ListTagIndexesReq& req) override;
    void listEdgeIndexes(mc::ListEdgeIndexesResp& resp, const mc::ListEdgeIndexesReq& req) override;
    void listListener(mc::ListListenerResp& resp, const mc::ListListenerReq& req) override;
    void listHosts(mc::ListHostsResp& resp, const mc::ListHostsReq&) override;
    void regConfig(mc::ExecResp& resp, const mc::RegConfigReq& req) override;
    void setConfig(mc::ExecResp& resp, const mc::SetConfigReq& req) override;
    void listConfigs(mc::ListConfigsResp& resp, const mc::ListConfigsReq& req) override;
};

struct World {
    std::vector<std::unique_ptr<Server>> servers;
    int leader = 0;                                   // -1: none elected
    std::vector<std::shared_ptr<State>> hist;         // every version there was
    std::vector<int64_t> since, stamp;                // from when (virtual time), and its update time
    int32_t nextId = 1, names = 3;
    std::vector<HostAddr> storage;
    std::map<std::string, uint64_t> served;
    std::vector<int64_t> gone;                        // when something asked for was no longer there
    std::function<void(const mc::HBReq&, mc::HBResp&)> onHeartbeat;
    std::function<void(const mc::RegConfigReq&)> onRegConfig;
    std::map<std::pair<int, std::string>, std::vector<nebula::Value>> configLog;   // every value there was
    std::function<ErrorCode(const char*)> refuse;     // an error instead of an answer
    std::function<void(mc::Schema&)> dress;           // more in a schema: types, default values
    int64_t cluster = 4242;
    std::vector<HostAddr> addrs() const { std::vector<HostAddr> r; for (auto& s : servers) r.push_back(s->addr); return r; }
    void up(int n) {
        for (int i = 0; i < n; i++) {
            auto s = std::make_unique<Server>();
            s->w = this; s->no = i; s->addr = HostAddr("10.0.0." + std::to_string(i + 1), 9559); s->hint = HostAddr("10.0.0.1", 9559);
            simnet::listen(s->addr.host, s->addr.port, s.get());
            servers.push_back(std::move(s));
        }
        leader = 0;
    }
    const State& cur() const { return *hist.back(); }
    int version() const { NoPreempt np; return (int)hist.size() - 1; }
    void commit(std::shared_ptr<State> s) {
        NoPreempt np;
        hist.push_back(std::move(s));
        since.push_back(monoNs());
        int64_t ms = realNs() / 1000000;
        stamp.push_back(stamp.empty() || ms > stamp.back() ? ms : stamp.back() + 1);
    }
    void elect(int who) {                             // hints follow later, if at all
        NoPreempt np;
        leader = who;
        HostAddr h = who < 0 ? HostAddr("", 0) : servers[who]->addr;
        for (auto& s : servers) {
            if (!faultsOn() || !fault("stale_leader_hint", 1, 4)) s->hint = h;
            else { auto* p = s.get(); simnet::at(range(T, 100000000, 8000000000LL), [this, p] { NoPreempt np2; p->hint = leader < 0 ? HostAddr("", 0) : servers[leader]->addr; }); }
        }
    }
    // Everyone reachable, one leader, everybody knows it.
    void heal() {
        NoPreempt np;
        if (leader < 0) leader = 0;
        for (auto& s : servers) { s->hint = servers[leader]->addr; simnet::blackhole(s->addr.host, s->addr.port, false); simnet::listen(s->addr.host, s->addr.port, s.get()); }
    }

    // The catalogue changes --------------------------------------------------
    HostAddr someHost() { return storage[choose(W, (uint32_t)storage.size())]; }
    std::vector<HostAddr> peers() {
        std::vector<HostAddr> all = storage, r;
        int n = 1 + choose(W, (uint32_t)std::min<size_t>(3, all.size()));
        while ((int)r.size() < n) { size_t i = choose(W, (uint32_t)all.size()); r.push_back(all[i]); all.erase(all.begin() + i); }
        return r;
    }
    mc::Schema schema(int rev) {
        mc::Schema s;
        int n = choose(W, 3);
        for (int i = 0; i <= n; i++) {
            mc::ColumnDef c;
            c.set_name("c" + std::to_string(i) + "_" + std::to_string(rev));
            mc::ColumnTypeDef t;
            if (choose(W, 2)) { t.set_type(mc::PropertyType::FIXED_STRING); t.set_type_length(4 + (int16_t)choose(W, 8)); } else t.set_type(mc::PropertyType::INT64);
            c.set_type(t);
            if (choose(W, 2)) c.set_nullable(true);
            s.columns.push_back(c);
        }
        mc::SchemaProp p;
        if (choose(W, 3) == 1) p.set_ttl_duration(100 + choose(W, 5));
        s.set_schema_prop(p);
        if (dress) dress(s);
        return s;
    }
    Space newSpace(GraphSpaceID id) {
        Space s;
        s.name = "s" + std::to_string(id);
        s.vidInt = choose(W, 3) == 1; s.vidLen = s.vidInt ? 8 : 8 + choose(W, 24);
        s.edgeIsolation = choose(W, 4) == 1;
        s.comment = "no " + std::to_string(choose(W, 100));
        int np = 1 + choose(W, 3);
        for (int p = 1; p <= np; p++) { s.parts[p] = peers(); s.terms[p] = choose(W, 5); if (choose(W, 3)) s.leaders[p] = s.parts[p][choose(W, (uint32_t)s.parts[p].size())]; }
        return s;
    }
    // One change; some (a dropped and recreated name) are versions of their own.
    void mutate(int force = -1) {
        auto n = std::make_shared<State>(cur());
        Space* sp = nullptr; GraphSpaceID sid = 0;
        if (!n->spaces.empty()) { auto it = n->spaces.begin(); std::advance(it, choose(W, (uint32_t)n->spaces.size())); sp = &it->second; sid = it->first; }
        int what = force >= 0 ? force : choose(W, 22), k = choose(W, 2);
        auto nm = [&](const char* p) { return std::string(p) + std::to_string(choose(W, names)); };
        if (!sp && what > 6) what = 0;
        auto pick = [&](auto& m) { auto it = m.begin(); std::advance(it, choose(W, (uint32_t)m.size())); return it; };
        switch (what) {
        case 0: if (n->spaces.size() < 3) { auto id = nextId++; n->spaces[id] = newSpace(id); } break;
        case 1: if (sp && choose(W, 2)) { n->spaces.erase(sid); for (auto& r : n->roles) r.second.erase(sid); for (auto i = n->ftIndexes.begin(); i != n->ftIndexes.end();) i->second.space == sid ? i = n->ftIndexes.erase(i) : ++i; } break;
        case 2: { auto u = nm("u"); if (n->users.count(u) && choose(W, 3) == 0) { n->users.erase(u); n->roles.erase(u); } else n->users[u] = "p" + std::to_string(choose(W, 9)); break; }
        case 3: if (!n->users.empty() && sp) { auto& r = n->roles[pick(n->users)->first]; if (choose(W, 2)) r[sid] = 1 + choose(W, 5); else r.erase(sid); } break;
        case 4: { n->ft.clear(); int c = choose(W, 3); for (int i = 0; i < c; i++) n->ft.emplace_back("es" + std::to_string(choose(W, 4)), 9200); break; }
        case 5: n->hosts = storage; if (choose(W, 2) && n->hosts.size() > 1) n->hosts.erase(n->hosts.begin() + choose(W, (uint32_t)n->hosts.size())); break;
        case 6: if (sp) { auto f = nm("ft"); if (n->ftIndexes.count(f)) n->ftIndexes.erase(f); else n->ftIndexes[f] = State::Ft{sid, choose(W, 2) == 1, (int32_t)choose(W, 6), (int)choose(W, 3)}; } break;
        case 7: case 8: { auto p = pick(sp->parts); p->second = peers(); ++sp->terms[p->first]; if (sp->listeners.count(p->first) == 0 || true) { sp->leaders.erase(p->first); if (choose(W, 3)) sp->leaders[p->first] = p->second[0]; } break; }
        case 9: { auto p = pick(sp->parts); ++sp->terms[p->first]; sp->leaders[p->first] = p->second[choose(W, (uint32_t)p->second.size())]; break; }
        case 10: case 11: { auto& m = sp->schemas[k]; auto name = nm(k ? "e" : "t"); bool dup = false; for (auto& x : m) dup |= x.second.name == name; if (!dup) { auto id = nextId++; m[id].name = name; m[id].versions.push_back(schema(0)); } break; }
        case 12: case 13: if (!sp->schemas[k].empty()) { auto it = pick(sp->schemas[k]); it->second.versions.push_back(schema((int)it->second.versions.size())); } break;
        case 14: if (!sp->schemas[k].empty()) sp->schemas[k].erase(pick(sp->schemas[k])); break;
        case 15: case 16: { auto& m = sp->indexes[k]; auto name = nm(k ? "ei" : "ti"); bool dup = false; for (auto& x : m) dup |= x.second.name == name; if (!dup) { auto id = nextId++; m[id] = IndexDef{name, (int32_t)choose(W, 6) + 1, (int)choose(W, 50)}; } break; }
        case 17: case 18: if (!sp->indexes[k].empty()) sp->indexes[k].erase(pick(sp->indexes[k])); break;
        case 19: case 20: { auto p = pick(sp->parts)->first; if (sp->listeners.count(p)) sp->listeners.erase(p); else sp->listeners[p] = someHost(); break; }
        default: { auto p = pick(sp->parts)->first; auto& l = sp->listeners; auto h = someHost(); if (l.count(p)) l[p] = h; break; }
        }
        // One listener host per part is all the client can tell apart; it is never a peer.
        for (auto& s : n->spaces) for (auto i = s.second.listeners.begin(); i != s.second.listeners.end();) { auto& ps = s.second.parts[i->first]; std::find(ps.begin(), ps.end(), i->second) != ps.end() ? i = s.second.listeners.erase(i) : ++i; }
        commit(n);
        static const char* names[] = {"space+", "space-", "user", "role", "ft", "hosts", "ftindex", "part", "part", "leader", "schema+", "schema+", "alter", "alter", "schema-", "index+", "index+", "index-", "index-", "listener", "listener", "listener move"};
        note("version %d: %s", (int)hist.size() - 1, names[what]);
        count("catalogue_versions");
    }
    bool setConfig(mc::ConfigItem item) {                 // the mode and type of what is there stay
        auto n = std::make_shared<State>(cur());
        auto key = std::make_pair((int)item.get_module(), item.get_name());
        auto it = n->configs.find(key);
        if (it == n->configs.end()) return false;
        it->second.set_value(item.get_value());
        commit(n);
        NoPreempt np;
        configLog[key].push_back(item.get_value());
        count("config_changes");
        return true;
    }
    void init() { auto s = std::make_shared<State>(); s->hosts = storage; s->users["root"] = "nebula"; commit(s); }
};

inline const State& Server::st() const { return w->cur(); }
template <class R> bool Server::ok(R& resp, const char* method) {
    NoPreempt np;
    ++w->served[method];
    if (w->leader != no) { resp.set_code(ErrorCode::E_LEADER_CHANGED); resp.set_leader(hint); count("not_leader"); return false; }
    if (w->refuse) { auto e = w->refuse(method); if (e != ErrorCode::SUCCEEDED) { resp.set_code(e); return false; } }
    resp.set_code(ErrorCode::SUCCEEDED);
    return true;
}
#define METAD_SPACE(id) auto sit = st().spaces.find(id); if (sit == st().spaces.end()) { w->gone.push_back(monoNs()), resp.set_code(ErrorCode::E_SPACE_NOT_FOUND); return; } const Space& s = sit->second
inline void Server::heartBeat(mc::HBResp& resp, const mc::HBReq& req) {

    if (!ok(resp, "heartBeat")) return;
    NoPreempt np;
    resp.set_cluster_id(w->cluster);
    resp.set_last_update_time_in_ms(w->stamp.back());
    if (w->onHeartbeat) w->onHeartbeat(req, resp);
}
inline void Server::regConfig(mc::ExecResp& resp, const mc::RegConfigReq& req) {
    if (!ok(resp, "regConfig")) return;
    NoPreempt np;
    if (w->onRegConfig) w->onRegConfig(req);
    for (auto& i : req.get_items()) {
        auto key = std::make_pair((int)i.get_module(), i.get_name());
        if (w->hist.back()->configs.emplace(key, i).second) w->configLog[key].push_back(i.get_value());
    }
}
inline void Server::setConfig(mc::ExecResp& resp, const mc::SetConfigReq& req) {
    if (!ok(resp, "setConfig")) return;
    if (!w->setConfig(req.get_item())) resp.set_code(ErrorCode::E_CONFIG_NOT_FOUND);
}
inline void Server::listConfigs(mc::ListConfigsResp& resp, const mc::ListConfigsReq& req) {
    if (!ok(resp, "listConfigs")) return;
    NoPreempt np;
    for (auto& c : st().configs) if (c.first.first == (int)req.get_module() || req.get_module() == mc::ConfigModule::ALL) resp.items.push_back(c.second);
}
inline void Server::listUsers(mc::ListUsersResp& resp, const mc::ListUsersReq&) {

    if (!ok(resp, "listUsers")) return;
    NoPreempt np;
    for (auto& u : st().users) resp.users[u.first] = u.second;
}
inline void Server::getUserRoles(mc::ListRolesResp& resp, const mc::GetUserRolesReq& req) {
    if (!ok(resp, "getUserRoles")) return;
    NoPreempt np;
    if (!st().users.count(req.get_account())) { w->gone.push_back(monoNs()), resp.set_code(ErrorCode::E_USER_NOT_FOUND); return; }
    auto it = st().roles.find(req.get_account());
    if (it != st().roles.end()) for (auto& r : it->second) { mc::RoleItem x; x.set_user_id(req.get_account()); x.set_space_id(r.first); x.set_role_type(static_cast<mc::RoleType>(r.second)); resp.roles.push_back(x); }
}
inline mc::FTClient ftClient(const HostAddr& h) { mc::FTClient c; c.set_host(h); return c; }
inline void Server::listFTClients(mc::ListFTClientsResp& resp, const mc::ListFTClientsReq&) {
    if (!ok(resp, "listFTClients")) return;
    NoPreempt np;
    for (auto& h : st().ft) resp.clients.push_back(ftClient(h));
}
inline void Server::listFTIndexes(mc::ListFTIndexesResp& resp, const mc::ListFTIndexesReq&) {
    if (!ok(resp, "listFTIndexes")) return;
    NoPreempt np;
    for (auto& f : st().ftIndexes) {
        mc::FTIndex x; x.set_space_id(f.second.space);
        mc::SchemaID id; if (f.second.edge) id.set_edge_type(f.second.id); else id.set_tag_id(f.second.id);
        x.set_depend_schema(id);
        for (int i = 0; i < f.second.nf; i++) x.fields.push_back("f" + std::to_string(i));
        resp.indexes[f.first] = x;
    }
}
inline void Server::listSpaces(mc::ListSpacesResp& resp, const mc::ListSpacesReq&) {
    if (!ok(resp, "listSpaces")) return;
    NoPreempt np;
    for (auto& s : st().spaces) { mc::IdName x; mc::ID id; id.set_space_id(s.first); x.set_id(id); x.set_name(s.second.name); resp.spaces.push_back(x); }
}
inline mc::SpaceDesc descOf(const Space& s) {
    mc::SpaceDesc d;
    d.set_space_name(s.name); d.set_partition_num((int)s.parts.size()); d.set_replica_factor(3);
    mc::ColumnTypeDef v; v.set_type(s.vidInt ? mc::PropertyType::INT64 : mc::PropertyType::FIXED_STRING); v.set_type_length((int16_t)s.vidLen);
    d.set_vid_type(v);
    if (s.edgeIsolation) d.set_isolation_level(mc::IsolationLevel::TOSS);
    d.set_comment(s.comment);
    return d;
}
inline void Server::getSpace(mc::GetSpaceResp& resp, const mc::GetSpaceReq& req) {
    if (!ok(resp, "getSpace")) return;
    NoPreempt np;
    for (auto& s : st().spaces) if (s.second.name == req.get_space_name()) { mc::SpaceItem i; i.set_space_id(s.first); i.set_properties(descOf(s.second)); resp.set_item(i); return; }
    w->gone.push_back(monoNs()), resp.set_code(ErrorCode::E_SPACE_NOT_FOUND);
}
inline void Server::getPartsAlloc(mc::GetPartsAllocResp& resp, const mc::GetPartsAllocReq& req) {
    if (!ok(resp, "getPartsAlloc")) return;
    NoPreempt np;
    METAD_SPACE(req.get_space_id());
    for (auto& p : s.parts) resp.parts[p.first] = p.second;
    std::unordered_map<PartitionID, int64_t> t(s.terms.begin(), s.terms.end());
    resp.set_terms(t);
}
inline void Server::listTags(mc::ListTagsResp& resp, const mc::ListTagsReq& req) {
    if (!ok(resp, "listTags")) return;
    NoPreempt np;
    METAD_SPACE(req.get_space_id());
    for (auto& t : s.schemas[0]) for (int v = (int)t.second.versions.size() - 1; v >= 0; v--) { mc::TagItem i; i.set_tag_id(t.first); i.set_tag_name(t.second.name); i.set_version(v); i.set_schema(t.second.versions[v]); resp.tags.push_back(i); }
}
inline void Server::listEdges(mc::ListEdgesResp& resp, const mc::ListEdgesReq& req) {
    if (!ok(resp, "listEdges")) return;
    NoPreempt np;
    METAD_SPACE(req.get_space_id());
    for (auto& t : s.schemas[1]) for (int v = (int)t.second.versions.size() - 1; v >= 0; v--) { mc::EdgeItem i; i.set_edge_type(t.first); i.set_edge_name(t.second.name); i.set_version(v); i.set_schema(t.second.versions[v]); resp.edges.push_back(i); }
}
inline mc::IndexItem indexItem(int k, int32_t id, const IndexDef& d) {
    mc::IndexItem i; i.set_index_id(id); i.set_index_name(d.name);
    mc::SchemaID sid; if (k) sid.set_edge_type(d.schema); else sid.set_tag_id(d.schema);
    i.set_schema_id(sid); i.set_comment("r" + std::to_string(d.rev));
    return i;
}
inline void Server::listTagIndexes(mc::ListTagIndexesResp& resp, const mc::ListTagIndexesReq& req) {
    if (!ok(resp, "listTagIndexes")) return;
    NoPreempt np;
    METAD_SPACE(req.get_space_id());
    for (auto& i : s.indexes[0]) resp.items.push_back(indexItem(0, i.first, i.second));
}
inline void Server::listEdgeIndexes(mc::ListEdgeIndexesResp& resp, const mc::ListEdgeIndexesReq& req) {
    if (!ok(resp, "listEdgeIndexes")) return;
    NoPreempt np;
    METAD_SPACE(req.get_space_id());
    for (auto& i : s.indexes[1]) resp.items.push_back(indexItem(1, i.first, i.second));
}
inline void Server::listListener(mc::ListListenerResp& resp, const mc::ListListenerReq& req) {
    if (!ok(resp, "listListener")) return;
    NoPreempt np;
    METAD_SPACE(req.get_space_id());
    for (auto& l : s.listeners) { mc::ListenerInfo i; i.set_type(mc::ListenerType::ELASTICSEARCH); i.set_host(l.second); i.set_part_id(l.first); i.set_status(mc::HostStatus::ONLINE); resp.listeners.push_back(i); }
}
inline void Server::listHosts(mc::ListHostsResp& resp, const mc::ListHostsReq&) {
    if (!ok(resp, "listHosts")) return;
    NoPreempt np;
    for (auto& h : st().hosts) {
        mc::HostItem i; i.set_hostAddr(h); i.set_status(mc::HostStatus::ONLINE);
        for (auto& s : st().spaces) for (auto& l : s.second.leaders) if (l.second == h) i.leader_parts[s.second.name].push_back(l.first);
        resp.hosts.push_back(i);
    }
}
}  // namespace metad
