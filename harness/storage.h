// Storage clients against simulated storage servers.  Which server leads a
// partition is the harness's truth, apart from what metad believes.
#pragma once
#include "metacluster.h"
#include "common/clients/storage/GraphStorageClient.h"
#include "common/clients/storage/GeneralStorageClient.h"
#include "common/clients/storage/InternalStorageClient.h"

namespace {
namespace st = nebula::storage;
namespace sc = nebula::storage::cpp2;
using nebula::Value;
using nebula::Row;
using Part = std::pair<GraphSpaceID, PartitionID>;

// What a request carries for each partition, as text; and whose it is.
std::string idBytes(const Value& v) {
    if (v.isStr()) return v.getStr();
    int64_t i = v.getInt();
    return std::string(reinterpret_cast<const char*>(&i), 8);
}
std::string hex(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) if (isalnum(c) || c == '.') r += (char)c; else { snprintf(b, 4, "%%%02x", c); r += b; } return r; }
int opOfId(const std::string& id) {
    int op = -1;
    if (sscanf(id.c_str(), "o%d.", &op) == 1) return op;
    if (id.size() == 8) { int64_t i; memcpy(&i, id.data(), 8); return (int)((i < 0 ? -i : i) / 1000); }
    return -1;
}
std::string text(const Value& v) { return v.isStr() ? "'" + hex(v.getStr()) + "'" : v.toString(); }
std::string itemId(const Row& r) { return idBytes(r.values[0]); }
std::string itemId(const sc::NewVertex& v) { return idBytes(v.get_id()); }
std::string itemId(const sc::NewEdge& e) { return idBytes(e.get_key().get_src()); }
std::string itemId(const sc::EdgeKey& k) { return idBytes(k.get_src()); }
std::string itemId(const Value& v) { return idBytes(v); }
std::string itemId(const sc::DelTags& d) { return idBytes(d.get_id()); }
std::string itemId(const std::string& s) { return s; }
std::string itemId(const nebula::KeyValue& k) { return k.key; }
std::string itemText(const sc::EdgeKey& k) { return hex(idBytes(k.get_src())) + ">" + std::to_string(k.get_edge_type()) + "@" + std::to_string(k.get_ranking()) + ">" + hex(idBytes(k.get_dst())); }
std::string itemText(const Row& r) { std::string s = hex(idBytes(r.values[0])); for (size_t i = 1; i < r.values.size(); i++) s += "," + (i == 3 ? hex(idBytes(r.values[i])) : text(r.values[i])); return s; }
std::string itemText(const sc::NewVertex& v) { std::string s = hex(idBytes(v.get_id())); for (auto& t : v.get_tags()) { s += "," + std::to_string(t.get_tag_id()); for (auto& p : t.get_props()) s += ":" + text(p); } return s; }
std::string itemText(const sc::NewEdge& e) { std::string s = itemText(e.get_key()); for (auto& p : e.get_props()) s += ":" + text(p); return s; }
std::string itemText(const Value& v) { return hex(idBytes(v)); }
std::string itemText(const sc::DelTags& d) { std::string s = hex(idBytes(d.get_id())); for (auto t : d.get_tags()) s += "," + std::to_string(t); return s; }
std::string itemText(const std::string& s) { return hex(s); }
std::string itemText(const nebula::KeyValue& k) { return hex(k.key) + "=" + hex(k.value); }

using Parts = std::map<PartitionID, std::vector<std::string>>;
struct Got { int op = -1; GraphSpaceID space = 0; Parts parts; };
template <class T> void take(Got& g, const std::unordered_map<PartitionID, std::vector<T>>& ps) {
    for (auto& p : ps) { auto& v = g.parts[p.first]; for (auto& i : p.second) { v.push_back(itemText(i)); g.op = opOfId(itemId(i)); } }
}
template <class R> Got look(const R& r) { Got g; g.space = r.get_space_id(); take(g, r.get_parts()); return g; }
template <class R> Got one(const R& r, const std::string& id, const std::string& t) { Got g; g.space = r.get_space_id(); g.op = opOfId(id); g.parts[r.get_part_id()] = {t}; return g; }
Got look(const sc::LookupIndexRequest& r) { Got g; g.space = r.get_space_id(); for (auto p : r.get_parts()) g.parts[p].push_back("*"); g.op = opOfId(r.return_columns.empty() ? "" : r.return_columns[0]); return g; }
Got look(const sc::LookupAndTraverseRequest& r) { Got g; g.space = r.get_space_id(); for (auto p : r.get_parts()) g.parts[p].push_back("*"); g.op = opOfId(r.traverse_spec.filter); return g; }
Got look(const sc::UpdateVertexRequest& r) { return one(r, idBytes(r.get_vertex_id()), itemText(r.get_vertex_id())); }
Got look(const sc::UpdateEdgeRequest& r) { return one(r, idBytes(r.get_edge_key().get_src()), itemText(r.get_edge_key())); }
Got look(const sc::GetUUIDReq& r) { return one(r, r.get_name(), itemText(r.get_name())); }
Got look(const sc::ScanVertexRequest& r) { return one(r, r.cursor, "*"); }
Got look(const sc::ScanEdgeRequest& r) { return one(r, r.cursor, "*"); }
Got look(const sc::InternalTxnRequest& r) { Got g; g.space = r.get_space_id(); g.op = (int)r.get_txn_id(); g.parts[r.get_part_id()] = {"*"}; return g; }
Got look(const sc::GetValueRequest& r) { Got g; g.space = r.get_space_id(); g.op = opOfId(r.get_key().size() > 4 ? r.get_key().substr(4) : ""); g.parts[r.get_part_id()] = {hex(r.get_key())}; return g; }

#define GRAPH_METHODS(X) X(getNeighbors, GetNeighbors) X(getProps, GetProp) X(lookupIndex, LookupIndex) X(lookupAndTraverse, LookupAndTraverse)
struct Reply { int op; HostAddr from; GraphSpaceID space; Parts parts; std::map<PartitionID, sc::PartitionResult> failed; std::string data; };
struct Sent { std::string method; HostAddr to; Got g; int64_t at; };
struct Operation {
    int id = 0; std::string method; GraphSpaceID space = 0;
    std::vector<std::pair<std::string, std::string>> items;   // id bytes, text
    bool whole = false;                                       // asks every part
    PartitionID onPart = 0;                                   // the caller chose
    std::function<bool(const void*)> same;                    // the rest of the request is as the caller gave it
    std::vector<Sent> sent;
};
struct Stores;
template <class If> struct Face : If { Stores* s = nullptr; HostAddr addr; };
struct GraphFace : Face<sc::GraphStorageServiceSvIf> {
#define F(m, Resp, Req) void m(sc::Resp& resp, const sc::Req& req) override;
    F(getNeighbors, GetNeighborsResponse, GetNeighborsRequest) F(getProps, GetPropResponse, GetPropRequest) F(addVertices, ExecResponse, AddVerticesRequest)
    F(addEdges, ExecResponse, AddEdgesRequest) F(addEdgesAtomic, ExecResponse, AddEdgesRequest) F(deleteEdges, ExecResponse, DeleteEdgesRequest)
    F(deleteVertices, ExecResponse, DeleteVerticesRequest) F(deleteTags, ExecResponse, DeleteTagsRequest) F(updateVertex, UpdateResponse, UpdateVertexRequest)
    F(updateEdge, UpdateResponse, UpdateEdgeRequest) F(scanVertex, ScanVertexResponse, ScanVertexRequest) F(scanEdge, ScanEdgeResponse, ScanEdgeRequest)
    F(getUUID, GetUUIDResp, GetUUIDReq) F(lookupIndex, LookupIndexResp, LookupIndexRequest) F(lookupAndTraverse, GetNeighborsResponse, LookupAndTraverseRequest)
};
struct GeneralFace : Face<sc::GeneralStorageServiceSvIf> { F(get, KVGetResponse, KVGetRequest) F(put, ExecResponse, KVPutRequest) F(remove, ExecResponse, KVRemoveRequest) };
struct InternalFace : Face<sc::InternalStorageServiceSvIf> { F(getValue, GetValueResponse, GetValueRequest) F(forwardTransaction, ExecResponse, InternalTxnRequest) };
#undef F
struct Storage : simnet::Handler {
    GraphFace g; GeneralFace k; InternalFace in; HostAddr addr;
    std::shared_ptr<void> dispatch(const std::string& m, const void* req) override { return m.compare(0, 6, "GraphS") == 0 ? g.dispatch(m, req) : k.dispatch(m, req); }
    void up() { simnet::listen(addr.host, addr.port, this); simnet::listen(addr.host, addr.port - 2, &in); }
    void down() { simnet::crash(addr.host, addr.port); simnet::crash(addr.host, addr.port - 2); }
    void cut(bool on) { simnet::blackhole(addr.host, addr.port, on); simnet::blackhole(addr.host, addr.port - 2, on); }
};
struct Stores {
    Cluster* c = nullptr;
    std::vector<std::unique_ptr<Storage>> hosts;
    std::map<Part, HostAddr> leader;                          // the truth; none: port 0
    std::vector<std::unique_ptr<Operation>> ops;
    std::vector<Reply> replies;                               // by serial number
    std::vector<HostAddr> hinted;                             // every host a server named
    bool quiet = false;                                       // no errors of its own, hints are right

    Operation* op(int id) { return id >= 1 && id <= (int)ops.size() ? ops[id - 1].get() : nullptr; }
    Operation* begin(const char* method, GraphSpaceID space) {
        NoPreempt np;
        auto o = std::make_unique<Operation>();
        o->id = (int)ops.size() + 1; o->method = method; o->space = space;
        ops.push_back(std::move(o));
        return ops.back().get();
    }
    const Space* space(GraphSpaceID id) const { auto& m = c->w.cur().spaces; auto i = m.find(id); return i == m.end() ? nullptr : &i->second; }
    // A peer leads, or nobody does.
    void elect(Part p, bool none = false) {
        NoPreempt np;
        auto* s = space(p.first);
        if (!s || !s->parts.count(p.second)) return;
        auto& ps = s->parts.at(p.second);
        leader[p] = none ? HostAddr("", 0) : ps[choose(W, (uint32_t)ps.size())];
    }
    void electAll() { for (auto& s : c->w.cur().spaces) for (auto& p : s.second.parts) elect({s.first, p.first}); }
    void setUp(Cluster* cl) {
        c = cl;
        for (auto& a : c->w.storage) {
            auto h = std::make_unique<Storage>();
            h->addr = a;
            h->g.s = h->k.s = h->in.s = this; h->g.addr = h->k.addr = h->in.addr = a;
            h->up();
            hosts.push_back(std::move(h));
        }
        simnet::onCall() = [this](const simnet::ConnInfo& ci, const char* m, const void* req) { sent(ci, m, req); };
    }
    // A space of its own kind, not what World makes.
    GraphSpaceID addSpace(bool vidInt, int parts) {
        auto n = std::make_shared<State>(c->w.cur());
        auto id = c->w.nextId++;
        Space s = c->w.newSpace(id);
        s.vidInt = vidInt; s.vidLen = vidInt ? 8 : 32;
        s.parts.clear(); s.terms.clear(); s.leaders.clear();
        for (int p = 1; p <= parts; p++) { s.parts[p] = c->w.peers(); s.terms[p] = 1; if (choose(W, 2)) s.leaders[p] = s.parts[p][choose(W, (uint32_t)s.parts[p].size())]; }
        n->spaces[id] = s; n->hosts = c->w.storage;
        c->w.commit(n);
        { NoPreempt np; for (int p = 1; p <= parts; p++) elect({id, p}); }
        return id;
    }
    sc::PartitionResult judge(Part p, const HostAddr& at) {
        sc::PartitionResult r;
        r.set_part_id(p.second);
        r.set_code(ErrorCode::SUCCEEDED);
        auto* s = space(p.first);
        if (!s) { r.set_code(ErrorCode::E_SPACE_NOT_FOUND); return r; }
        auto it = s->parts.find(p.second);
        if (it == s->parts.end() || std::find(it->second.begin(), it->second.end(), at) == it->second.end()) { r.set_code(ErrorCode::E_PART_NOT_FOUND); count("part_not_there"); return r; }
        HostAddr l = leader[p];
        if (l == at) {
            if (!quiet && fault("storage_error", 1, 24)) r.set_code(choose(W, 2) ? ErrorCode::E_CONSENSUS_ERROR : ErrorCode::E_KEY_NOT_FOUND);
            return r;
        }
        r.set_code(ErrorCode::E_LEADER_CHANGED);
        count("not_the_leader");
        if (!quiet && fault("stale_hint", 1, 6)) l = it->second[choose(W, (uint32_t)it->second.size())];
        else if (!quiet && fault("no_hint", 1, 6)) l = HostAddr("", 0);
        if (l.port != 0) { r.set_leader(l); hinted.push_back(l); }
        else switch (choose(W, 4)) { case 0: break; case 1: r.set_leader(HostAddr("", 0)); break; case 2: r.set_leader(HostAddr("", 44500)); break; default: r.set_leader(HostAddr("10.0.1.1", 0)); break; }
        return r;
    }
    template <class Resp> static void fill(Resp&, const std::string&) {}
    static void fill(sc::KVGetResponse& r, const std::string& d) { r.key_values["tag"] = d; }
    static void fill(sc::GetUUIDResp& r, const std::string& d) { r.set_id(Value(d)); }
    static void fill(sc::GetValueResponse& r, const std::string& d) { r.set_value(d); }
    static void fill(sc::ScanVertexResponse& r, const std::string& d) { r.next_cursor = d; }
    static void fill(sc::ScanEdgeResponse& r, const std::string& d) { r.next_cursor = d; }
    template <class Resp> static std::string dataOf(const Resp&) { return ""; }
    static std::string dataOf(const sc::KVGetResponse& r) { return r.key_values.count("tag") ? r.key_values.at("tag") : "none"; }
    static std::string dataOf(const sc::GetUUIDResp& r) { return r.get_id().isStr() ? r.get_id().getStr() : "none"; }
    static std::string dataOf(const sc::ScanVertexResponse& r) { return r.next_cursor; }
    static std::string dataOf(const sc::ScanEdgeResponse& r) { return r.next_cursor; }
    template <class Resp, class Req> void serve(Resp& resp, const Req& req, const HostAddr& at) {
        NoPreempt np;
        Got g = look(req);
        Reply r;
        r.op = g.op; r.from = at; r.space = g.space; r.parts = g.parts;
        sc::ResponseCommon rc;
        for (auto& p : g.parts) {
            auto pr = judge({g.space, p.first}, at);
            if (pr.get_code() != ErrorCode::SUCCEEDED) { r.failed[p.first] = pr; rc.failed_parts.push_back(pr); }
        }
        rc.set_latency_in_us((int32_t)replies.size() + 1);    // tells replies apart
        resp.set_result(rc);
        r.data = "d" + std::to_string(replies.size() + 1);
        fill(resp, r.data);
        replies.push_back(r);
        count("storage_calls_served");
    }
    template <class Req> void sent(const simnet::ConnInfo& ci, const char* m, const Req& req) {
        NoPreempt np;
        Got g = look(req);
        auto* o = op(g.op);
        SIM_CHECK(o, "%s: a request that belongs to no call", m);
        SIM_CHECK(o->method == strchr(m, '.') + 1, "call %d asked for %s, sent %s", o->id, o->method.c_str(), m);
        SIM_CHECK(g.space == o->space, "%s: call %d is for space %d, the request is for %d", m, o->id, o->space, g.space);
        SIM_CHECK(!o->same || o->same(&req), "%s: the request of call %d does not carry what the caller gave", m, o->id);
        o->sent.push_back(Sent{m, HostAddr(ci.ip, ci.port), g, monoNs()});
        count("storage_calls_sent");
    }
    void sent(const simnet::ConnInfo& ci, const char* m, const void* req) {
        if (!strncmp(m, "MetaS", 5)) return;
        std::string n = strchr(m, '.') + 1;
#define M(name, Req) if (n == #name) return sent(ci, m, *static_cast<const sc::Req*>(req));
        M(getNeighbors, GetNeighborsRequest) M(getProps, GetPropRequest) M(addVertices, AddVerticesRequest) M(addEdges, AddEdgesRequest) M(addEdgesAtomic, AddEdgesRequest)
        M(deleteEdges, DeleteEdgesRequest) M(deleteVertices, DeleteVerticesRequest) M(deleteTags, DeleteTagsRequest) M(updateVertex, UpdateVertexRequest) M(updateEdge, UpdateEdgeRequest)
        M(scanVertex, ScanVertexRequest) M(scanEdge, ScanEdgeRequest) M(getUUID, GetUUIDReq) M(lookupIndex, LookupIndexRequest) M(lookupAndTraverse, LookupAndTraverseRequest)
        M(get, KVGetRequest) M(put, KVPutRequest) M(remove, KVRemoveRequest) M(getValue, GetValueRequest) M(forwardTransaction, InternalTxnRequest)
#undef M
        violation("a request of unknown kind: %s", m);
    }
    void netFaults(int64_t until) {
        if (!faultsOn()) return;
        auto& f = simnet::faults;
        static const uint32_t r[] = {0, 1000, 8000};
        f.connectRefused = r[choose(W, 3)]; f.connectLost = r[choose(W, 3)]; f.requestLost = r[choose(W, 3)];
        f.replyLost = r[choose(W, 3)]; f.reset = r[choose(W, 3)]; f.slow = r[choose(W, 2)]; f.appError = r[choose(W, 2)];
        int n = choose(W, 5);
        for (int i = 0; i < n; i++) {
            auto* h = hosts[choose(W, (uint32_t)hosts.size())].get();
            int kind = choose(W, 3);
            int64_t at = range(T, 0, until), dur = range(T, 100000000, 10000000000LL);
            if (kind == 0) simnet::at(at, [=] { if (!faultsOn()) return; fault("storage_crash", 1, 1); h->down(); simnet::at(dur, [=] { h->up(); }); });
            else if (kind == 1) simnet::at(at, [=] { if (!faultsOn()) return; fault("storage_partition", 1, 1); h->cut(true); simnet::at(dur, [=] { h->cut(false); }); });
            else simnet::at(at, [=] { if (!faultsOn()) return; fault("storage_bounce", 1, 1); h->down(); h->up(); });
        }
    }
    void leaderMoves(int n, int64_t until) {
        for (int i = 0; i < n; i++) {
            bool none = choose(W, 4) == 0;
            simnet::at(range(T, 0, until), [=] {
                if (quiet) return;
                NoPreempt np;
                auto& sp = c->w.cur().spaces;
                if (sp.empty()) return;
                auto it = sp.begin(); std::advance(it, choose(W, (uint32_t)sp.size()));
                auto p = it->second.parts.begin(); std::advance(p, choose(W, (uint32_t)it->second.parts.size()));
                count("storage_leader_moves");
                elect({it->first, p->first}, none);
            });
        }
    }
    void heal() {
        NoPreempt np;
        quiet = true;
        for (auto& h : hosts) { h->cut(false); h->up(); }
        for (auto& s : c->w.cur().spaces) for (auto& p : s.second.parts) {
            auto& l = leader[{s.first, p.first}];
            if (std::find(p.second.begin(), p.second.end(), l) == p.second.end()) elect({s.first, p.first});
        }
    }
    static PartitionID partOf(const std::string& id, int n) {
        uint64_t h;
        if (id.size() == 8) memcpy(&h, id.data(), 8); else h = std::hash<std::string>()(id);
        return (PartitionID)(h % n + 1);
    }
};
#define F(face, m, Resp, Req) void face::m(sc::Resp& resp, const sc::Req& req) { s->serve(resp, req, addr); }
F(GraphFace, getNeighbors, GetNeighborsResponse, GetNeighborsRequest) F(GraphFace, getProps, GetPropResponse, GetPropRequest) F(GraphFace, addVertices, ExecResponse, AddVerticesRequest)
F(GraphFace, addEdges, ExecResponse, AddEdgesRequest) F(GraphFace, addEdgesAtomic, ExecResponse, AddEdgesRequest) F(GraphFace, deleteEdges, ExecResponse, DeleteEdgesRequest)
F(GraphFace, deleteVertices, ExecResponse, DeleteVerticesRequest) F(GraphFace, deleteTags, ExecResponse, DeleteTagsRequest) F(GraphFace, updateVertex, UpdateResponse, UpdateVertexRequest)
F(GraphFace, updateEdge, UpdateResponse, UpdateEdgeRequest) F(GraphFace, scanVertex, ScanVertexResponse, ScanVertexRequest) F(GraphFace, scanEdge, ScanEdgeResponse, ScanEdgeRequest)
F(GraphFace, getUUID, GetUUIDResp, GetUUIDReq) F(GraphFace, lookupIndex, LookupIndexResp, LookupIndexRequest) F(GraphFace, lookupAndTraverse, GetNeighborsResponse, LookupAndTraverseRequest)
F(GeneralFace, get, KVGetResponse, KVGetRequest) F(GeneralFace, put, ExecResponse, KVPutRequest) F(GeneralFace, remove, ExecResponse, KVRemoveRequest)
F(InternalFace, getValue, GetValueResponse, GetValueRequest) F(InternalFace, forwardTransaction, ExecResponse, InternalTxnRequest)
#undef F
}  // namespace
