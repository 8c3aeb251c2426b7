// What the schema and index managers answer, over the client's copy of the
// catalogue: that of a version metad had, as if asked of metad itself.
#include "metacluster.h"
#include "common/meta/ServerBasedSchemaManager.h"
#include "common/meta/ServerBasedIndexManager.h"
using namespace nebula::meta;

namespace {
enum { ByName = NKINDS + 1, FtOf };
const int kinds[] = {SpaceId, SpaceName, VidLen, VidType, PartsNum, SchemaId, SchemaName, SchemaVer_, SchemaAt, SchemaAt, SchemaAt, AllVer, AllLatest, EdgeNames,
                     IndexByName, IndexById, Indexes_, CheckIndex, FtClients, ByName, ByName, FtOf, FtOf};

struct Managers : Cluster {
    std::unique_ptr<ServerBasedSchemaManager> own;
    SchemaManager* sm = nullptr;
    std::unique_ptr<ServerBasedIndexManager> im;
    void open() { own = ServerBasedSchemaManager::create(client.get()); sm = own.get(); im = ServerBasedIndexManager::create(client.get()); }

    std::string reply(const Q& q) override {
        std::vector<std::string> v;
#define GET(expr, ...) { auto r = expr; if (!r.ok()) return err(r); auto& x = r.value(); (void)x; __VA_ARGS__ }
        switch (q.kind) {
        case SpaceId: GET(sm->toGraphSpaceID(q.s), return std::to_string(x);)
        case SpaceName: GET(sm->toGraphSpaceName(q.a), return x;)
        case VidLen: GET(sm->getSpaceVidLen(q.a), return std::to_string(x);)
        case VidType: GET(sm->getSpaceVidType(q.a), return std::to_string((int)x);)
        case PartsNum: GET(sm->getPartsNum(q.a), return std::to_string(x);)
        case SchemaId: if (q.c) GET(sm->toEdgeType(q.a, q.s), return std::to_string(x);) else GET(sm->toTagID(q.a, q.s), return std::to_string(x);)
        case SchemaName: if (q.c) GET(sm->toEdgeName(q.a, q.b), return x;) else GET(sm->toTagName(q.a, q.b), return x;)
        case SchemaVer_: {
            auto r = q.c ? sm->getLatestEdgeSchemaVersion(q.a, q.b) : sm->getLatestTagSchemaVersion(q.a, q.b);
            if (!r.ok()) return err(r);
            return r.value() < 0 ? "-" : std::to_string(r.value());
        }
        case SchemaAt: {
            int ver = (q.c >> 1) - 1;
            if (q.c & 1) return schemaStr((ver < 0 ? sm->getEdgeSchema(q.a, q.b) : sm->getEdgeSchema(q.a, q.b, ver)).get());
            return schemaStr((ver < 0 ? sm->getTagSchema(q.a, q.b) : sm->getTagSchema(q.a, q.b, ver)).get());
        }
        case AllVer: {
            auto f = [&](auto& mm) { for (auto& e : mm) for (size_t i = 0; i < e.second.size(); i++) v.push_back(std::to_string(e.first) + "." + std::to_string(i) + "=" + schemaStr(e.second[i].get())); return join(v, true); };
            if (q.c) GET(sm->getAllVerEdgeSchema(q.a), return f(x);) else GET(sm->getAllVerTagSchema(q.a), return f(x);)
        }
        case AllLatest: {
            auto f = [&](auto& mm) { for (auto& e : mm) v.push_back(std::to_string(e.first) + "=" + schemaStr(e.second.get())); return join(v, true); };
            if (q.c) GET(sm->getAllLatestVerEdgeSchema(q.a), return f(x);) else GET(sm->getAllLatestVerTagSchema(q.a), return f(x);)
        }
        case EdgeNames: GET(sm->getAllEdge(q.a), return join(x, true);)
        case IndexByName: if (q.c) GET(im->toEdgeIndexID(q.a, q.s), return std::to_string(x);) else GET(im->toTagIndexID(q.a, q.s), return std::to_string(x);)
        case IndexById: if (q.c) GET(im->getEdgeIndex(q.a, q.b), return indexStr(*x);) else GET(im->getTagIndex(q.a, q.b), return indexStr(*x);)
        case Indexes_: { auto f = [&](auto& l) { for (auto& i : l) v.push_back(indexStr(*i)); return join(v, true); }; if (q.c) GET(im->getEdgeIndexes(q.a), return f(x);) else GET(im->getTagIndexes(q.a), return f(x);) }
        case CheckIndex: return (q.c ? im->checkEdgeIndexed(q.a, q.b) : im->checkTagIndexed(q.a, q.b)).ok() ? "yes" : "-";
        case FtClients: GET(sm->getFTClients(), for (auto& c : x) v.push_back(hp(c.get_host())); return join(v);)
        case ByName: GET(sm->getSchemaIDByName(q.a, q.s), return (x.first ? "edge " : "tag ") + std::to_string(x.second);)
        case FtOf: GET(sm->getFTIndex(q.a, q.b), return x.first + "=" + ftStr(x.second);)
        }
#undef GET
        harnessError("unknown question");
    }
    static std::vector<std::string> ftOf(const State& st, const Q& q) {
        std::vector<std::string> v;
        for (auto& f : st.ftIndexes) if (f.second.space == q.a && f.second.id == q.b) v.push_back(f.first + "=" + ftStr(f.second));
        return v;
    }
    std::string wanted(const State& st, const Q& q) override {
        auto it = st.spaces.find(q.a);
        const Space* s = it == st.spaces.end() ? nullptr : &it->second;
        switch (q.kind) {
        case IndexByName: if (s) for (auto& x : s->indexes[q.c]) if (x.second.name == q.s) return std::to_string(x.first); return "-";
        case FtClients: { auto r = truth(st, q); return r.empty() ? "-" : r; }       // none is an error here
        case ByName: if (s) for (int k : {1, 0}) for (auto& x : s->schemas[k]) if (x.second.name == q.s) return (k ? "edge " : "tag ") + std::to_string(x.first); return "-";
        case FtOf: { auto v = ftOf(st, q); return v.empty() ? "-" : join(v); }
        }
        return truth(st, q);
    }
    bool fits(const State& st, const Q& q, const std::string& got) override {
        if (q.kind != FtOf) return wanted(st, q) == got;
        auto v = ftOf(st, q);                        // several will do
        return v.empty() ? got == "-" : std::find(v.begin(), v.end(), got) != v.end();
    }
    Q mquestion() {
        int kind = kinds[choose(W, sizeof(kinds) / sizeof(*kinds))];
        if (kind < NKINDS) return question(kind);
        Q q = question(VidLen);
        q.kind = kind; q.c = 0;
        if (kind == FtOf) q.b = choose(W, 7);
        else { static const char* n[] = {"t", "e", "both"}; int k = choose(W, 3); q.s = n[k]; if (k < 2) q.s += std::to_string(choose(W, w.names)); }
        return q;
    }
    // A tag and an edge type of one name, one of which may go.
    void both() {
        NoPreempt np;
        if (w.cur().spaces.empty()) return;
        auto n = std::make_shared<State>(w.cur());
        auto& s = n->spaces.begin()->second;
        for (int k = 0; k < 2; k++) if (choose(W, 4)) { auto id = w.nextId++; s.schemas[k][id].name = "both"; s.schemas[k][id].versions.push_back(w.schema(0)); }
        w.commit(n);
    }
    void exactManagers() {
        std::vector<Q> qs;
        auto add = [&](int kind, int a = 0, int b = 0, int c = 0, std::string s = "") { Q q; q.kind = kind; q.a = a; q.b = b; q.c = c; q.s = std::move(s); qs.push_back(q); };
        for (int id = 1; id < w.nextId; id++) {
            bool space = false;
            for (auto& s : w.hist) space |= s->spaces.count(id) > 0;
            if (!space) continue;
            add(SpaceId, id, 0, 0, "s" + std::to_string(id));
            for (int k : {SpaceName, VidLen, VidType, PartsNum, EdgeNames}) add(k, id);
            for (int i = 0; i < 6; i++) add(FtOf, id, i);
            add(ByName, id, 0, 0, "both");
            for (int k = 0; k < 2; k++) {
                add(AllVer, id, 0, k); add(AllLatest, id, 0, k); add(Indexes_, id, 0, k);
                for (int n = 0; n < 3; n++) { auto i = std::to_string(n); add(SchemaId, id, 0, k, (k ? "e" : "t") + i); add(ByName, id, 0, 0, (k ? "e" : "t") + i); add(IndexByName, id, 0, k, (k ? "ei" : "ti") + i); }
                for (int x = 1; x < w.nextId; x++) { add(SchemaName, id, x, k); add(SchemaVer_, id, x, k); add(IndexById, id, x, k); add(CheckIndex, id, x, k); for (int v = 0; v < 3; v++) add(SchemaAt, id, x, k | v << 1); }
            }
        }
        add(FtClients);
        for (auto& q : qs) exact(q);
    }
};
}  // namespace

SIM_SCENARIO(meta_managers) {
    auto* c = new Managers();
    timing();
    c->setUp(1 + choose(W, 2), 2, 1);
    auto& w = c->w;
    int pre = choose(W, 40);
    for (int i = 0; i < pre; i++) w.mutate();
    if (choose(W, 2)) c->both();
    c->netFaults();
    setClockLimitNs(7200 * SEC);
    c->make(options(w.storage[0], choose(W, 2) ? mc::HostRole::GRAPH : mc::HostRole::STORAGE));
    c->open();
    int nmut = choose(W, 20), readers = 1 + choose(W, 3), nreads = 10 + choose(W, 30);
    note("servers=%zu changes=%d+%d readers=%d reads=%d", w.servers.size(), pre, nmut, readers, nreads);
    if (faultsOn()) c->metadFaults(choose(W, 4), 40 * SEC);
    for (int i = 0; i < nmut; i++) simnet::at(range(T, 0, 40 * SEC), [&w] { w.mutate(); });
    int done = 0;
    std::vector<std::thread> ts;
    for (int t = 0; t < readers; t++) ts.emplace_back([=, &w, &done] {
        for (int i = 0; i < nreads; i++) {
            sleepNs(choose(W, 3) ? range(T, 1000, 3000000) : range(T, 1000, 4 * SEC));
            c->read(c->mquestion(), 0);
        }
        NoPreempt np; ++done;
    });
    SIM_CHECK(c->client->waitForMetadReady(-1, 1), "waiting for metad for ever returned without success");
    { NoPreempt np; c->ready = true; }
    SIM_CHECK(waitUntil([&] { return done == readers; }, 3600 * SEC), "a reader is stuck");
    for (auto& t : ts) t.join();
    sleepNs(40 * SEC);
    c->settle();
    sleepNs(75 * SEC);
    c->exactManagers();
    c->im.reset(); c->own.reset();
    c->tearDown();
}
