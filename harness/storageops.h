// One call of a storage client: made with random arguments, waited for, judged.
#pragma once
#include "storage.h"
DECLARE_int32(storage_client_timeout_ms);
DECLARE_int32(conn_timeout_ms);

namespace {
struct Outcome {
    bool collect = true, refused = false; std::string err;
    // of a fan-out
    std::vector<std::tuple<HostAddr, int32_t, int32_t>> lat;
    std::map<PartitionID, ErrorCode> failed;
    std::vector<std::pair<int32_t, std::string>> answers;
    bool succeeded = false; int completeness = 0, maxLat = 0;
    // of a single request
    bool ok = false; int32_t serial = 0; std::string data;
};
enum { NEIGHBORS, PROPS_V, PROPS_E, ADD_V, ADD_E, DEL_E, DEL_V, DEL_T, LOOKUP, TRAVERSE, KV_GET, KV_PUT, KV_DEL, UPD_V, UPD_E, UUID, SCAN_V, SCAN_E, NOPS };
struct Clients {
    Stores& s; MetaClient* m;
    st::GraphStorageClient graph; st::GeneralStorageClient kv;
    int64_t limitNs = 120 * SEC;
    Clients(Stores& stores, Cluster& c) : s(stores), m(c.client.get()), graph(c.io, c.client.get()), kv(c.io, c.client.get()) {}

    template <class F> auto await(Operation* o, F f) {
        SIM_CHECK(f.wait(std::chrono::seconds(limitNs / SEC)), "%s: no result after %ld s", o->method.c_str(), (long)(limitNs / SEC));
        return std::move(f).getTry();
    }
    template <class Resp> Outcome collect(Operation* o, folly::SemiFuture<st::StorageRpcResponse<Resp>> f) {
        auto t = await(o, std::move(f));
        Outcome r;
        if (t.hasException()) { r.refused = true; r.err = t.exception().what(); return r; }
        auto& v = t.value();
        r.lat = v.hostLatency(); r.succeeded = v.succeeded(); r.maxLat = v.maxLatency();
        if (!o->items.empty() || o->whole) r.completeness = v.completeness(); else r.completeness = 100;
        for (auto& p : v.failedParts()) r.failed[p.first] = p.second;
        for (auto& x : v.responses()) r.answers.emplace_back(x.get_result().get_latency_in_us(), Stores::dataOf(x));
        return r;
    }
    template <class Resp> Outcome single(Operation* o, folly::Future<nebula::StatusOr<Resp>> f) {
        auto t = await(o, std::move(f));
        Outcome r;
        r.collect = false;
        SIM_CHECK(!t.hasException(), "%s ended with an exception: %s", o->method.c_str(), t.exception().what().c_str());
        auto& v = t.value();
        if (!v.ok()) { r.err = v.status().toString(); return r; }
        r.ok = true; r.serial = v.value().get_result().get_latency_in_us(); r.data = Stores::dataOf(v.value());
        return r;
    }
    Value vid(const Space* sp, Operation* o, int n) {
        if (sp && sp->vidInt) { int64_t v = o->id * 1000 + n; return Value(choose(W, 3) ? v : -v); }
        return Value(sid(o, n));
    }
    std::string sid(Operation* o, int n) {
        std::string s = "o" + std::to_string(o->id) + "." + std::to_string(n);
        if (choose(W, 3) == 0) while (s.size() < 8) s += "x";
        else if (choose(W, 4) == 0) s += std::string(1 + choose(W, 20), 'y');
        return s;
    }
    template <class T> void item(Operation* o, const T& t) { NoPreempt np; o->items.emplace_back(itemId(t), itemText(t)); }
    // same(): the request but for its parts is this one
    template <class Req> static std::function<bool(const void*)> but(Req want) {
        return [want](const void* p) { Req r = *static_cast<const Req*>(p); r.parts.clear(); r.__isset.parts = false; return r == want; };
    }
    template <class Req> static std::function<bool(const void*)> butPart(Req want) {
        return [want](const void* p) { Req r = *static_cast<const Req*>(p); r.part_id = 0; return r == want; };
    }
    std::vector<std::string> names(const char* p) { std::vector<std::string> v; for (int i = choose(W, 3); i >= 0; i--) v.push_back(p + std::to_string(i)); return v; }

    // The same calls as callers make.
    Outcome call(int kind, GraphSpaceID space, Operation** out, Stores& s2) {
        (void)s2;
        Space copy; const Space* sp = nullptr;
        { NoPreempt np; auto* p = s.space(space); if (p) { copy = *p; sp = &copy; } }
        int n = choose(W, 5) == 0 ? choose(W, 2) : 1 + choose(W, 12);
        auto begin = [&](const char* m) { auto* o = s.begin(m, space); *out = o; return o; };
        int np = sp ? (int)sp->parts.size() : 3;
        switch (kind) {
        case NEIGHBORS: {
            auto* o = begin("getNeighbors");
            std::vector<Row> rows;
            for (int i = 0; i < n; i++) { Row r; r.values.push_back(vid(sp, o, i)); if (choose(W, 3) == 0) r.values.push_back(Value(int64_t(i))); rows.push_back(r); item(o, r); }
            auto before = rows;
            auto cols = names("col");
            std::vector<nebula::EdgeType> types; for (int i = choose(W, 3); i >= 0; i--) types.push_back(i - 1);
            auto dir = (sc::EdgeDirection)(1 + choose(W, 3));
            std::vector<sc::StatProp> sps(1); sps[0].alias = "a";
            std::vector<sc::VertexProp> vps(1); vps[0].tag = 3;
            std::vector<sc::EdgeProp> eps(1); eps[0].type = 4;
            std::vector<sc::Expr> xs(1); xs[0].alias = "x";
            std::vector<sc::OrderBy> ob(choose(W, 2)); for (auto& b : ob) b.prop = "p";
            int opt = choose(W, 16);
            bool dedup = choose(W, 2), random = choose(W, 2);
            int64_t limit = choose(W, 2) ? 7 : std::numeric_limits<int64_t>::max();
            std::string filter = choose(W, 2) ? "f" : "";
            sc::GetNeighborsRequest w;
            w.set_space_id(space); w.set_column_names(cols);
            sc::TraverseSpec ts;
            ts.set_edge_types(types); ts.set_edge_direction(dir); ts.set_dedup(dedup); ts.set_random(random); ts.set_limit(limit);
            if (opt & 1) ts.set_stat_props(sps);
            if (opt & 2) ts.set_vertex_props(vps);
            if (opt & 4) ts.set_edge_props(eps);
            if (opt & 8) ts.set_expressions(xs);
            if (!ob.empty()) ts.set_order_by(ob);
            if (!filter.empty()) ts.set_filter(filter);
            w.set_traverse_spec(ts);
            o->same = but(w);
            auto r = collect(o, graph.getNeighbors(space, cols, rows, types, dir, opt & 1 ? &sps : nullptr, opt & 2 ? &vps : nullptr, opt & 4 ? &eps : nullptr, opt & 8 ? &xs : nullptr, dedup, random, ob, limit, filter));
            SIM_CHECK(rows == before, "getNeighbors changed the vertices of its caller");
            return r;
        }
        case PROPS_V: case PROPS_E: {
            auto* o = begin("getProps");
            bool edge = kind == PROPS_E;
            nebula::DataSet ds;
            ds.colNames = {"a"};
            for (int i = 0; i < n; i++) {
                Row r; r.values.push_back(vid(sp, o, i));
                if (edge) { r.values.push_back(Value(int64_t(3))); r.values.push_back(Value(int64_t(i))); r.values.push_back(vid(sp, o, 500 + i)); }
                ds.rows.push_back(r); item(o, r);
            }
            auto before = ds.rows;
            std::vector<sc::VertexProp> vps(1); vps[0].tag = 3;
            std::vector<sc::EdgeProp> eps(1); eps[0].type = 4;
            std::vector<sc::Expr> xs(1); xs[0].alias = "x";
            std::vector<sc::OrderBy> ob(choose(W, 2)); for (auto& b : ob) b.prop = "p";
            int opt = choose(W, 2); bool dedup = choose(W, 2); int64_t limit = 1 + choose(W, 9);
            std::string filter = choose(W, 2) ? "f" : "";
            sc::GetPropRequest w;
            w.set_space_id(space); w.set_dedup(dedup); w.set_limit(limit);
            if (edge) w.set_edge_props(eps); else w.set_vertex_props(vps);
            if (opt) w.set_expressions(xs);
            if (!ob.empty()) w.set_order_by(ob);
            if (!filter.empty()) w.set_filter(filter);
            o->same = but(w);
            auto r = collect(o, graph.getProps(space, ds, edge ? nullptr : &vps, edge ? &eps : nullptr, opt ? &xs : nullptr, dedup, ob, limit, filter));
            SIM_CHECK(ds.rows == before, "getProps changed the rows of its caller");
            return r;
        }
        case ADD_V: {
            auto* o = begin("addVertices");
            std::vector<sc::NewVertex> vs;
            for (int i = 0; i < n; i++) { sc::NewVertex v; v.set_id(vid(sp, o, i)); sc::NewTag t; t.set_tag_id(i % 3); t.set_props(std::vector<Value>{Value(int64_t(i)), Value("p")}); v.set_tags(std::vector<sc::NewTag>{t}); vs.push_back(v); item(o, v); }
            std::unordered_map<nebula::TagID, std::vector<std::string>> pn; pn[1] = names("n");
            bool ine = choose(W, 2);
            sc::AddVerticesRequest w; w.set_space_id(space); w.set_prop_names(pn); w.set_if_not_exists(ine);
            o->same = but(w);
            return collect(o, graph.addVertices(space, vs, pn, ine));
        }
        case ADD_E: {
            bool toss = choose(W, 2);
            auto* o = begin(toss ? "addEdgesAtomic" : "addEdges");
            std::vector<sc::NewEdge> es;
            for (int i = 0; i < n; i++) { sc::NewEdge e; e.set_key(key(sp, o, i)); e.set_props(std::vector<Value>{Value(int64_t(i)), Value("q")}); es.push_back(e); item(o, e); }
            auto pn = names("n"); bool ine = choose(W, 2);
            sc::AddEdgesRequest w; w.set_space_id(space); w.set_prop_names(pn); w.set_if_not_exists(ine);
            o->same = but(w);
            return collect(o, graph.addEdges(space, es, pn, ine, nullptr, toss));
        }
        case DEL_E: {
            auto* o = begin("deleteEdges");
            std::vector<sc::EdgeKey> ks;
            for (int i = 0; i < n; i++) { ks.push_back(key(sp, o, i)); item(o, ks.back()); }
            sc::DeleteEdgesRequest w; w.set_space_id(space); o->same = but(w);
            return collect(o, graph.deleteEdges(space, ks));
        }
        case DEL_V: {
            auto* o = begin("deleteVertices");
            std::vector<Value> vs;
            for (int i = 0; i < n; i++) { vs.push_back(vid(sp, o, i)); item(o, vs.back()); }
            sc::DeleteVerticesRequest w; w.set_space_id(space); o->same = but(w);
            return collect(o, graph.deleteVertices(space, vs));
        }
        case DEL_T: {
            auto* o = begin("deleteTags");
            std::vector<sc::DelTags> ds;
            for (int i = 0; i < n; i++) { sc::DelTags d; d.set_id(vid(sp, o, i)); d.set_tags(std::vector<nebula::TagID>{i, i + 1}); ds.push_back(d); item(o, d); }
            sc::DeleteTagsRequest w; w.set_space_id(space); o->same = but(w);
            return collect(o, graph.deleteTags(space, ds));
        }
        case LOOKUP: {
            auto* o = begin("lookupIndex");
            o->whole = true;
            std::vector<sc::IndexQueryContext> cx(1 + choose(W, 2)); cx[0].set_index_id(5); cx[0].set_filter("g");
            bool edge = choose(W, 2); int id = choose(W, 9);
            std::vector<std::string> cols{"o" + std::to_string(o->id) + ".c", "d"};
            sc::LookupIndexRequest w; w.set_space_id(space); w.set_return_columns(cols);
            sc::IndexSpec is; is.set_contexts(cx); is.set_is_edge(edge); is.set_tag_or_edge_id(id); w.set_indices(is);
            o->same = but(w);
            return collect(o, graph.lookupIndex(space, cx, edge, id, cols));
        }
        case TRAVERSE: {
            auto* o = begin("lookupAndTraverse");
            o->whole = true;
            sc::IndexSpec is; is.set_is_edge(true); is.set_tag_or_edge_id(choose(W, 9));
            sc::TraverseSpec ts; ts.set_filter("o" + std::to_string(o->id) + ".f"); ts.set_limit(9);
            sc::LookupAndTraverseRequest w; w.set_space_id(space); w.set_indices(is); w.set_traverse_spec(ts);
            o->same = but(w);
            return collect(o, graph.lookupAndTraverse(space, is, ts));
        }
        case KV_GET: case KV_DEL: {
            auto* o = begin(kind == KV_GET ? "get" : "remove");
            std::vector<std::string> ks;
            for (int i = 0; i < n; i++) { ks.push_back(sid(o, i)); item(o, ks.back()); }
            if (kind == KV_DEL) { sc::KVRemoveRequest w; w.set_space_id(space); o->same = but(w); return collect(o, kv.remove(space, ks)); }
            bool partly = choose(W, 2);
            sc::KVGetRequest w; w.set_space_id(space); w.set_return_partly(partly); o->same = but(w);
            return collect(o, kv.get(space, std::move(ks), partly));
        }
        case KV_PUT: {
            auto* o = begin("put");
            std::vector<nebula::KeyValue> kvs;
            for (int i = 0; i < n; i++) { nebula::KeyValue e; e.key = sid(o, i); e.value = "v" + std::to_string(i); kvs.push_back(e); item(o, e); }
            sc::KVPutRequest w; w.set_space_id(space); o->same = but(w);
            return collect(o, kv.put(space, kvs));
        }
        case UPD_V: {
            auto* o = begin("updateVertex");
            Value v = vid(sp, o, 1); item(o, v);
            std::vector<sc::UpdatedProp> ups(1); ups[0].set_name("u"); ups[0].set_value("v");
            auto ret = names("r"); bool ins = choose(W, 2); std::string cond = choose(W, 2) ? "c" : "";
            sc::UpdateVertexRequest w; w.set_space_id(space); w.set_vertex_id(Value(idBytes(v))); w.set_tag_id(6); w.set_updated_props(ups); w.set_return_props(ret); w.set_insertable(ins); if (!cond.empty()) w.set_condition(cond);
            o->same = butPart(w);
            return single(o, graph.updateVertex(space, v, 6, ups, ins, ret, cond));
        }
        case UPD_E: {
            auto* o = begin("updateEdge");
            auto k = key(sp, o, 1); item(o, k);
            std::vector<sc::UpdatedProp> ups(1); ups[0].set_name("u"); ups[0].set_value("v");
            auto ret = names("r"); bool ins = choose(W, 2); std::string cond = choose(W, 2) ? "c" : "";
            sc::UpdateEdgeRequest w; w.set_space_id(space); auto wk = k; wk.set_src(Value(idBytes(k.get_src()))); wk.set_dst(Value(idBytes(k.get_dst()))); w.set_edge_key(wk); w.set_updated_props(ups); w.set_return_props(ret); w.set_insertable(ins); if (!cond.empty()) w.set_condition(cond);
            o->same = butPart(w);
            return single(o, graph.updateEdge(space, k, ups, ins, ret, cond));
        }
        case UUID: {
            auto* o = begin("getUUID");
            auto name = sid(o, 1); item(o, name);
            return single(o, graph.getUUID(space, name));
        }
        case SCAN_V: {
            auto* o = begin("scanVertex");
            o->onPart = 1 + choose(W, np);
            sc::ScanVertexRequest w; w.set_space_id(space); w.set_cursor("o" + std::to_string(o->id) + ".c"); w.set_limit(5); w.set_part_id(o->onPart);
            o->same = [w](const void* p) { return *static_cast<const sc::ScanVertexRequest*>(p) == w; };
            return single(o, graph.scanVertex(w));
        }
        default: {
            auto* o = begin("scanEdge");
            o->onPart = 1 + choose(W, np);
            sc::ScanEdgeRequest w; w.set_space_id(space); w.set_cursor("o" + std::to_string(o->id) + ".c"); w.set_limit(5); w.set_part_id(o->onPart);
            o->same = [w](const void* p) { return *static_cast<const sc::ScanEdgeRequest*>(p) == w; };
            return single(o, graph.scanEdge(w));
        }
        }
    }
    sc::EdgeKey key(const Space* sp, Operation* o, int i) { sc::EdgeKey k; k.set_src(vid(sp, o, i)); k.set_dst(vid(sp, o, 500 + i)); k.set_edge_type(choose(W, 2) ? 3 : -3); k.set_ranking(i); return k; }

    // Where everything should have gone, and whether the result accounts for it.
    void judge(Operation* o, const Outcome& r, int parts, bool faultless) {
        NoPreempt np;
        const char* m = o->method.c_str();
        std::map<HostAddr, const Sent*> to;
        std::map<PartitionID, HostAddr> where;
        Parts got;
        for (auto& s : o->sent) {
            SIM_CHECK(to.emplace(s.to, &s).second, "%s: two requests to %s", m, hp(s.to).c_str());
            for (auto& p : s.g.parts) {
                SIM_CHECK(where.emplace(p.first, s.to).second, "%s: partition %d is in the requests to %s and %s", m, p.first, hp(where[p.first]).c_str(), hp(s.to).c_str());
                got[p.first] = p.second;
            }
        }
        Parts want;
        if (parts > 0) {
            for (auto& i : o->items) want[Stores::partOf(i.first, parts)].push_back(i.second);
            if (o->whole) for (int p = 1; p <= parts; p++) want[p] = {"*"};
            if (o->onPart) want[o->onPart] = {"*"};
        }
        if (r.refused || (!r.collect && !r.ok && o->sent.empty())) {
            SIM_CHECK(parts == 0, "%s for a space that is there was refused: %s", m, r.err.c_str());
            SIM_CHECK(o->sent.empty(), "%s was refused, after sending a request", m);
            count("refused");
            return;
        }
        SIM_CHECK(parts > 0, "%s for a space that is not there was accepted", m);
        for (auto& p : want) {
            auto g = got.find(p.first);
            SIM_CHECK(g != got.end(), "%s: nothing was sent for partition %d, which has %s", m, p.first, join(p.second).c_str());
            SIM_CHECK(g->second == p.second, "%s: partition %d should get %s, it got %s", m, p.first, join(p.second).c_str(), join(g->second).c_str());
        }
        for (auto& g : got) SIM_CHECK(want.count(g.first), "%s: partition %d got %s, which belongs elsewhere", m, g.first, join(g.second).c_str());
        if (!r.collect) {
            SIM_CHECK(o->sent.size() == 1, "%s: %zu requests for one call", m, o->sent.size());
            if (!r.ok) { SIM_CHECK(!faultless, "%s failed without any fault: %s", m, r.err.c_str()); count("rpc_failures"); return; }
            reply(o, r.serial, o->sent[0].to, r.data);
            return;
        }
        std::map<PartitionID, ErrorCode> bad;
        std::set<HostAddr> heard;
        int32_t maxLat = 0; size_t failures = 0;
        SIM_CHECK(r.lat.size() == r.answers.size(), "%s: %zu answers, %zu latencies", m, r.answers.size(), r.lat.size());
        for (size_t i = 0; i < r.lat.size(); i++) {
            auto& h = std::get<0>(r.lat[i]);
            int32_t serial = std::get<1>(r.lat[i]);
            SIM_CHECK(to.count(h), "%s: a latency for %s, which was not asked", m, hp(h).c_str());
            SIM_CHECK(heard.insert(h).second, "%s: two latencies for %s", m, hp(h).c_str());
            auto a = std::find_if(r.answers.begin(), r.answers.end(), [&](auto& x) { return x.first == serial; });   // they are in no particular order
            SIM_CHECK(a != r.answers.end(), "%s: no answer has the latency given for %s", m, hp(h).c_str());
            SIM_CHECK(std::get<2>(r.lat[i]) >= 0 && std::get<2>(r.lat[i]) <= 3600000000LL, "%s: %d us from request to answer", m, std::get<2>(r.lat[i]));
            auto& rep = reply(o, serial, h, a->second);
            for (auto& f : rep.failed) bad[f.first] = f.second.get_code();
            failures += !rep.failed.empty();
            maxLat = std::max(maxLat, serial);
        }
        for (auto& t : to) if (!heard.count(t.first)) {
            SIM_CHECK(!faultless, "%s: no answer from %s without any fault", m, hp(t.first).c_str());
            count("rpc_failures");
            ++failures;
            for (auto& p : t.second->g.parts) bad[p.first] = ErrorCode::E_RPC_FAILURE;
        }
        SIM_CHECK(r.failed == bad, "%s: failed partitions are said to be %s, they are %s", m, codes(r.failed).c_str(), codes(bad).c_str());
        SIM_CHECK(r.succeeded == (failures == 0), "%s: %zu of %zu requests failed and it is said to have %ssucceeded", m, failures, to.size(), r.succeeded ? "" : "not ");
        int full = to.empty() ? 100 : (int)((to.size() - failures) * 100 / to.size());
        SIM_CHECK(r.completeness == full, "%s: %zu of %zu requests failed and its completeness is %d", m, failures, to.size(), r.completeness);
        SIM_CHECK(r.maxLat == maxLat, "%s: the longest latency is %d, not %d", m, maxLat, r.maxLat);
        count(failures ? "partial_results" : "full_results");
    }
    static std::string codes(const std::map<PartitionID, ErrorCode>& c) { std::string s = "{"; for (auto& p : c) s += " " + std::to_string(p.first) + ":" + std::to_string((int)p.second); return s + " }"; }
    const Reply& reply(Operation* o, int32_t serial, const HostAddr& h, const std::string& data) {
        const char* m = o->method.c_str();
        SIM_CHECK(serial >= 1 && serial <= (int32_t)s.replies.size(), "%s: an answer nobody gave (%d)", m, serial);
        auto& rep = s.replies[serial - 1];
        SIM_CHECK(rep.op == o->id && rep.from == h, "%s: the answer of %s to call %d is given for %s and call %d", m, hp(rep.from).c_str(), rep.op, hp(h).c_str(), o->id);
        SIM_CHECK(data.empty() || data == rep.data, "%s: the answer carries '%s', the server said '%s'", m, data.c_str(), rep.data.c_str());
        return rep;
    }
};
}  // namespace
