// Schemas handed out by the meta client: what metad defined, whole, for as long as they are held.
#include <malloc.h>
#define HARNESS_REAL_EXPRESSIONS
#include "metacluster.h"
#include "common/base/ObjectPool.h"
#include "common/expression/ArithmeticExpression.h"
#include "common/expression/ConstantExpression.h"
#include "common/expression/ContainerExpression.h"
#include "common/expression/FunctionCallExpression.h"
#include "common/expression/UnaryExpression.h"

namespace {
using nebula::meta::NebulaSchemaProvider;
using SchemaPtr = std::shared_ptr<const NebulaSchemaProvider>;
using PT = mc::PropertyType;
const PT kTypes[] = {PT::BOOL, PT::INT64, PT::INT32, PT::INT16, PT::INT8, PT::VID, PT::FLOAT, PT::DOUBLE, PT::STRING, PT::FIXED_STRING, PT::TIMESTAMP, PT::DATE, PT::TIME, PT::DATETIME};
const int kSize[] = {1, 8, 4, 2, 1, 8, 4, 8, 8, -1, 8, 4, 7, 11};
int sizeOf(PT t, int len) { for (int i = 0; i < 14; i++) if (kTypes[i] == t) return kSize[i] < 0 ? len : kSize[i]; harnessError("no such type"); return 0; }

nebula::Expression* someDefault(nebula::ObjectPool* p, int depth = 0) {
    switch (choose(W, depth > 1 ? 3 : 7)) {
    case 0: return nebula::ConstantExpression::make(p, (int64_t)choose(W, 1000) - 500);
    case 1: return nebula::ConstantExpression::make(p, std::string(choose(W, 60), (char)('a' + choose(W, 26))));
    case 2: return nebula::ConstantExpression::make(p, choose(W, 2) == 1);
    case 3: return nebula::ArithmeticExpression::makeAdd(p, someDefault(p, depth + 1), someDefault(p, depth + 1));
    case 4: return nebula::UnaryExpression::makeNegate(p, someDefault(p, depth + 1));
    case 5: { auto* a = nebula::ArgumentList::make(p); a->addArgument(someDefault(p, depth + 1)); return nebula::FunctionCallExpression::make(p, choose(W, 2) ? "abs" : "upper", a); }
    default: { auto* l = nebula::ExpressionList::make(p); for (int i = choose(W, 3); i >= 0; i--) l->add(someDefault(p, depth + 1)); return nebula::ListExpression::make(p, l); }
    }
}
std::map<std::string, std::string> gText;                // encoded default value -> how it reads
void dress(mc::Schema& s) {
    NoPreempt np;
    nebula::ObjectPool pool;
    if (choose(W, 2)) for (int i = choose(W, 12); i > 0; i--) { mc::ColumnDef c; c.set_name("more" + std::to_string(i)); if (choose(W, 2)) c.set_nullable(choose(W, 2) == 1); s.columns.push_back(c); }
    for (auto& c : s.columns) {
        mc::ColumnTypeDef t; t.set_type(kTypes[choose(W, 14)]);
        if (t.get_type() == PT::FIXED_STRING) t.set_type_length(1 + choose(W, 300)); else if (choose(W, 8) == 1) t.set_type_length(choose(W, 9));
        c.set_type(t);
        if (choose(W, 5) < 2) continue;
        auto* e = someDefault(&pool);
        std::string enc = nebula::Expression::encode(*e);
        gText[enc] = e->toString();
        c.set_default_value(enc);
        count("default_values");
    }
    if (choose(W, 3) == 1) { mc::SchemaProp p = s.get_schema_prop(); p.set_ttl_col(choose(W, 4) ? "c0" : ""); if (choose(W, 3)) p.set_ttl_duration((int)choose(W, 4) * 50 - 50); s.set_schema_prop(p); }
}
std::string ttlOf(bool col, const std::string& c, bool dur, int64_t d) { return col && !c.empty() && dur && d > 0 ? c + " after " + std::to_string(d) : "no ttl"; }

// How a schema must be, from its definition.
std::string full(const mc::Schema& s, int v) {
    std::string r = "v" + std::to_string(v);
    size_t off = 0, nulls = 0;
    for (auto& c : s.get_columns()) {
        int size = sizeOf(c.get_type().get_type(), c.get_type().type_length_ref().has_value() ? *c.get_type().type_length_ref() : 0);
        bool null = c.nullable_ref().has_value() && *c.nullable_ref();
        r += "; " + c.get_name() + " type " + std::to_string((int)c.get_type().get_type()) + " at " + std::to_string(off) + "+" + std::to_string(size);
        if (null) r += " null flag " + std::to_string(nulls++);
        r += c.default_value_ref().has_value() ? " default " + gText[*c.default_value_ref()] : "";
        off += size;
    }
    auto& p = s.get_schema_prop();
    return r + "; " + std::to_string(s.get_columns().size()) + " fields, " + std::to_string(off) + " bytes, " + std::to_string(nulls) + " nullable, " +
        ttlOf(p.ttl_col_ref().has_value(), p.ttl_col_ref().has_value() ? *p.ttl_col_ref() : "", p.ttl_duration_ref().has_value(), p.ttl_duration_ref().has_value() ? *p.ttl_duration_ref() : 0);
}
// How it is, each way it can be asked.
std::string full(const NebulaSchemaProvider* s) {
    if (!s) return "-";
    std::string r = "v" + std::to_string(s->getVersion());
    size_t n = s->getNumFields(), seen = 0;
    auto it = s->begin();
    for (; it; ++it, ++seen) {
        SIM_CHECK(seen < n, "the iterator visits more than the %zu fields", n);
        auto* f = s->field((int64_t)seen);
        SIM_CHECK(&*it == f && it->name() == f->name(), "the iterator's field %zu is another one", seen);
        std::string name = f->name();
        SIM_CHECK(s->getFieldIndex(name) == (int64_t)seen && s->field(name) == f && name == s->getFieldName(seen) && s->getFieldType((int64_t)seen) == f->type() && s->getFieldType(name) == f->type(),
                  "field %zu, '%s', is another one under its name (%ld)", seen, name.c_str(), (long)s->getFieldIndex(name));
        r += "; " + name + " type " + std::to_string((int)f->type()) + " at " + std::to_string(f->offset()) + "+" + std::to_string(f->size());
        if (f->nullable()) r += " null flag " + std::to_string(f->nullFlagPos());
        SIM_CHECK(f->hasDefault() == (f->defaultValue() != nullptr), "field '%s' says it has %s default value", name.c_str(), f->hasDefault() ? "a" : "no");
        if (f->hasDefault()) r += " default " + f->defaultValue()->toString();
    }
    SIM_CHECK(seen == n && it == s->end(), "the iterator ends after %zu of %zu fields", seen, n);
    SIM_CHECK(s->field((int64_t)n) == nullptr && s->field(-1) == nullptr && s->getFieldName(n) == nullptr && s->getFieldType((int64_t)n) == PT::UNKNOWN && s->getFieldIndex("nobody") == -1 && s->field("nobody") == nullptr && s->getFieldType("nobody") == PT::UNKNOWN,
              "a field that is not there was found");
    if (n > 1) { auto a = s->begin(); a + (uint16_t)(n - 1); SIM_CHECK(&*a == s->field((int64_t)n - 1), "stepping to the last field ends elsewhere"); ++a; SIM_CHECK(a == s->end() && !a, "after the last field is not the end"); }
    auto t = s->getTTLInfo();
    return r + "; " + std::to_string(n) + " fields, " + std::to_string(s->size()) + " bytes, " + std::to_string(s->getNumNullableFields()) + " nullable, " + (t.ok() ? t.value().first + " after " + std::to_string(t.value().second) : "no ttl");
}

struct SchemaCluster : Cluster {
    struct Held { SchemaPtr s; std::string was; };
    std::vector<Held> held;
    void hold(const SchemaPtr& s, const std::string& was) { if (!s || choose(W, 3)) return; NoPreempt np; if (held.size() < 60) held.push_back({s, was}); else held[choose(W, 60)] = {s, was}; }
    void check(const char* when) {
        std::vector<Held> h; { NoPreempt np; h = held; }
        for (auto& x : h) { auto now = full(x.s.get()); count("held_schemas_read_again"); SIM_CHECK(now == x.was, "a schema held is now '%s' and was '%s' (%s)", now.c_str(), x.was.c_str(), when); }
    }
    std::string reply(const Q& q) override {
        auto* m = client.get();
        std::vector<std::string> v;
        auto see = [&](const SchemaPtr& s) { auto r = full(s.get()); hold(s, r); return r; };
        switch (q.kind) {
        case SchemaAt: { auto r = q.c & 1 ? m->getEdgeSchemaFromCache(q.a, q.b, (q.c >> 1) - 1) : m->getTagSchemaFromCache(q.a, q.b, (q.c >> 1) - 1); return !r.ok() ? (std::string(r.status().toString()).find("Not ready") != std::string::npos ? "!" : "-") : see(r.value()); }
        default: return ask(m, q);
        case AllVer: {
            auto f = [&](auto&& r) { if (!r.ok()) return std::string(r.status().toString().find("Not ready") != std::string::npos ? "!" : "-"); for (auto& e : r.value()) for (size_t i = 0; i < e.second.size(); i++) v.push_back(std::to_string(e.first) + "." + std::to_string(i) + "=" + see(e.second[i])); return join(v, true); };
            return q.c ? f(m->getAllVerEdgeSchema(q.a)) : f(m->getAllVerTagSchema(q.a));
        }
        case AllLatest: {
            auto f = [&](auto&& r) { if (!r.ok()) return std::string(r.status().toString().find("Not ready") != std::string::npos ? "!" : "-"); for (auto& e : r.value()) v.push_back(std::to_string(e.first) + "=" + see(e.second)); return join(v, true); };
            return q.c ? f(m->getAllLatestVerEdgeSchemaFromCache(q.a)) : f(m->getAllLatestVerTagSchema(q.a));
        }
        }
    }
    std::string wanted(const State& st, const Q& q) override {
        auto it = st.spaces.find(q.a);
        const Space* s = it == st.spaces.end() ? nullptr : &it->second;
        std::vector<std::string> v;
        NoPreempt np;
        switch (q.kind) {
        case SchemaAt: { if (!s || !s->schemas[q.c & 1].count(q.b)) return "-"; auto& d = s->schemas[q.c & 1].at(q.b); int ver = (q.c >> 1) - 1; if (ver >= (int)d.versions.size()) return "-"; if (ver < 0) ver = (int)d.versions.size() - 1; return full(d.versions[ver], ver); }
        case AllVer: if (!s) return "-"; for (auto& x : s->schemas[q.c]) for (size_t i = 0; i < x.second.versions.size(); i++) v.push_back(std::to_string(x.first) + "." + std::to_string(i) + "=" + full(x.second.versions[i], (int)i)); return join(v, true);
        case AllLatest: if (!s) return "-"; for (auto& x : s->schemas[q.c]) v.push_back(std::to_string(x.first) + "=" + full(x.second.versions.back(), (int)x.second.versions.size() - 1)); return join(v, true);
        default: return truth(st, q);
        }
    }
};
}  // namespace

SIM_SCENARIO(meta_schemas) {
    mallopt(M_PERTURB, 0x5a);                            // what was freed no longer looks like what it was
    auto* c = new SchemaCluster();
    timing();
    c->setUp(1 + choose(W, 2), 2, 1);
    auto& w = c->w;
    w.dress = dress;
    static const int changes[] = {10, 11, 12, 13, 10, 12, 0, 1};
    w.mutate(0);
    int pre = 2 + choose(W, 12);
    for (int i = 0; i < pre; i++) w.mutate(changes[choose(W, 6)]);
    setClockLimitNs(7200 * SEC);
    c->netFaults();
    c->make(options(w.storage[0], choose(W, 2) ? mc::HostRole::GRAPH : mc::HostRole::STORAGE));
    int nmut = choose(W, 8), readers = 1 + choose(W, 3), nreads = 5 + choose(W, 25);
    note("servers=%zu changes=%d+%d readers=%d reads=%d", w.servers.size(), pre, nmut, readers, nreads);
    if (faultsOn()) c->metadFaults(choose(W, 3), 40 * SEC);
    for (int i = 0; i < nmut; i++) simnet::at(range(T, 0, 40 * SEC), [&w] { w.mutate(changes[choose(W, 8)]); });
    SIM_CHECK(c->client->waitForMetadReady(-1, 1), "waiting for metad for ever returned without success");
    { NoPreempt np; c->ready = true; }
    static const int kinds[] = {SchemaAt, AllVer, AllLatest, SchemaAt, SchemaVer_};
    int done = 0;
    std::vector<std::thread> ts;
    for (int t = 0; t < readers; t++) ts.emplace_back([=, &done] {
        for (int i = 0; i < nreads; i++) {
            sleepNs(choose(W, 3) ? range(T, 1000, 3000000) : range(T, 1000, 3 * SEC));
            c->read(c->question(kinds[choose(W, 5)]), 0);
            if (choose(W, 4) == 1) c->check("later");
        }
        NoPreempt np; ++done;
    });
    int nref = choose(W, 4);
    for (int i = 0; i < nref; i++) { sleepNs(range(T, 1000, 12 * SEC)); c->client->refreshCache(); count("refreshed"); c->check("after a refresh"); }
    SIM_CHECK(waitUntil([&] { return done == readers; }, 3600 * SEC), "a reader is stuck");
    for (auto& t : ts) t.join();
    sleepNs(45 * SEC);
    c->check("after the changes");
    c->settle();
    sleepNs(75 * SEC);
    for (int id = 1; id < w.nextId; id++) for (int k = 0; k < 2; k++) {
        bool space = false; for (auto& s : w.hist) space |= s->spaces.count(id) > 0;
        if (!space) continue;
        Q q; q.a = id; q.c = k; q.kind = AllVer; c->exact(q); q.kind = AllLatest; c->exact(q);
        for (int x = 1; x < w.nextId; x++) for (int v = 0; v < 3; v++) { Q p; p.a = id; p.b = x; p.c = k | v << 1; p.kind = SchemaAt; c->exact(p); }
    }
    c->check("at the end");
    c->tearDown();
    c->check("after the client is gone");
}
