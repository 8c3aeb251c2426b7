// Values: random histories of several threads against a model of what each one holds, also
// where a value is given a part of itself, with failing allocations the caller survives.
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <new>
#include <set>
#include <thread>
#include "common/base/Base.h"
#include "common/datatypes/ValueOps.inl"

using namespace sim;
using namespace nebula;

namespace {
int pick(int n) { return choose(W, n); }
#include "valuekit.h"

DataSet dataSetV() {
    DataSet d; int c = pick(4), r = pick(pick(3) ? 4 : 9); for (int i = 0; i < c; i++) d.colNames.push_back(kProps[i]);
    for (int i = 0; i < r; i++) { nebula::Row w; for (int j = 0; j < c; j++) w.values.push_back(leaf(ANY, 2)); d.rows.push_back(std::move(w)); }
    return d;
}
Value fresh() { return pick(8) == 0 ? Value(dataSetV()) : leaf(ANY, 0); }

// Every value inside of this one, at any depth but keys of a set.
void parts(Value& v, std::vector<Value*>* out, int depth = 0) {
    auto add = [&](Value& x) { out->push_back(&x); if (depth < 4) parts(x, out, depth + 1); };
    auto vertex = [&](Vertex& x) { add(x.vid); for (auto& t : x.tags) for (auto& p : t.props) add(p.second); };
    switch (v.type()) {
    case Value::Type::LIST: for (auto& x : v.mutableList().values) add(x); break;
    case Value::Type::MAP: for (auto& x : v.mutableMap().kvs) add(x.second); break;
    case Value::Type::VERTEX: vertex(v.mutableVertex()); break;
    case Value::Type::EDGE: { auto& e = v.mutableEdge(); add(e.src); add(e.dst); for (auto& p : e.props) add(p.second); break; }
    case Value::Type::PATH: { auto& p = v.mutablePath(); vertex(p.src); for (auto& s : p.steps) { vertex(s.dst); for (auto& q : s.props) add(q.second); } break; }
    case Value::Type::DATASET: for (auto& r : v.mutableDataSet().rows) for (auto& x : r.values) add(x); break;
    default: break;
    }
}
bool unordered(const std::string& k) { return k.find("nan") != std::string::npos || k.find("NULL") != std::string::npos || k.find("EMPTY") != std::string::npos; }

// set...() and the constructors for what a value holds: from a constant, or moved.
void give(Value& to, const Value& from, bool ctor) {
    switch (from.type()) {
#define G(T, get, set) case Value::Type::T: if (ctor) to = Value(from.get()); else to.set(from.get()); break;
    G(NULLVALUE, getNull, setNull) G(BOOL, getBool, setBool) G(INT, getInt, setInt) G(FLOAT, getFloat, setFloat) G(STRING, getStr, setStr)
    G(DATE, getDate, setDate) G(TIME, getTime, setTime) G(DATETIME, getDateTime, setDateTime) G(VERTEX, getVertex, setVertex) G(EDGE, getEdge, setEdge)
    G(PATH, getPath, setPath) G(LIST, getList, setList) G(MAP, getMap, setMap) G(SET, getSet, setSet) G(DATASET, getDataSet, setDataSet)
#undef G
    default: to = from;
    }
}
// What is taken out of one is put into the other: taking out leaves nothing.
void take(Value& to, Value& from, int how, bool inside = false) {
    switch (from.type()) {
#define M(T, mv, mut, set) case Value::Type::T: if (how == 0) to = Value(from.mv()); else if (how == 1) { auto x = from.mv(); to.set(std::move(x)); } else { to.set(std::move(from.mut())); if (!inside) from.clear(); } break;
#define H(T, X, mv, mut, set) case Value::Type::T: if (how == 3) { to.set(std::make_unique<X>(from.mv())); break; } if (how == 0) to = Value(from.mv()); else if (how == 1) { auto x = from.mv(); to.set(std::move(x)); } else { to.set(std::move(from.mut())); if (!inside) from.clear(); } break;
    M(NULLVALUE, moveNull, mutableNull, setNull) M(BOOL, moveBool, mutableBool, setBool) M(INT, moveInt, mutableInt, setInt) M(FLOAT, moveFloat, mutableFloat, setFloat) M(STRING, moveStr, mutableStr, setStr)
    M(DATE, moveDate, mutableDate, setDate) M(TIME, moveTime, mutableTime, setTime) M(DATETIME, moveDateTime, mutableDateTime, setDateTime)
    H(VERTEX, Vertex, moveVertex, mutableVertex, setVertex) H(EDGE, Edge, moveEdge, mutableEdge, setEdge) H(PATH, Path, movePath, mutablePath, setPath)
    H(LIST, List, moveList, mutableList, setList) H(MAP, Map, moveMap, mutableMap, setMap) H(SET, Set, moveSet, mutableSet, setSet) H(DATASET, DataSet, moveDataSet, mutableDataSet, setDataSet)
#undef M
#undef H
    default: to = std::move(from);
    }
}
void hold(const std::vector<Value>& shared, const std::vector<std::string>& sharedKeys) {
    const int K = 4;
    Value v[K]; std::string m[K]; for (auto& x : m) x = "EMPTY";
    int steps = 8 + pick(30);
    for (int k = 0; k < steps; k++) {
        int i = pick(K), j = pick(K), what = choose(W, 20);
        std::string was = m[i], want = m[i];
        bool alloc = fault("alloc_fail", 1, 3), failed = false;
        auto run = [&](auto f) { memArm(alloc, 1, 8); try { f(); } catch (const std::bad_alloc&) { failed = true; } memDisarm(); };
        int sh = pick(shared.size());
        switch (what) {
        case 0: case 1: want = m[j]; run([&] { v[i] = static_cast<const Value&>(v[j]); }); break;
        case 2: v[i] = std::move(v[j]); if (i != j) { m[i] = m[j]; m[j] = "EMPTY"; } want = m[i]; break;
        case 3: case 4: { Value f = fresh(); want = key(f); v[i] = std::move(f); SIM_CHECK(key(f) == "EMPTY", "%s was moved and left %s behind", want.c_str(), brief(key(f)).c_str()); break; }
        case 5: case 6: case 7: case 8: {                     // a part of itself
            std::vector<Value*> p; parts(v[i], &p);
            if (p.empty()) break;
            Value* x = p[pick(p.size())]; want = key(*x);
            if (what == 5) run([&] { v[i] = static_cast<const Value&>(*x); });
            else if (what == 6) v[i] = std::move(*x);
            else if (what == 7) run([&] { give(v[i], *x, false); });
            else { int how = pick(2) ? 2 : pick(4); if (!x->empty()) run([&] { take(v[i], *x, how, true); }); else v[i] = std::move(*x); if (failed) want = key(v[i]), m[i] = want; }
            break;
        }
        case 9: case 10: { bool c = pick(2); want = m[j]; run([&] { give(v[i], v[j], c); }); break; }
        case 11: if (i != j && !v[j].empty()) { int how = pick(4); want = m[j]; run([&] { take(v[i], v[j], how); }); if (failed) { m[j] = key(v[j]); want = m[i] = key(v[i]); } else m[j] = "EMPTY"; } break;
        case 12: {                                            // grows, by a copy that may be of itself
            if (m[j].size() > 600 || m[i].size() > 3000) break;
            if (v[i].isList()) { run([&] { v[i].mutableList().values.emplace_back(static_cast<const Value&>(v[j])); }); if (!failed) { want = was; want.pop_back(); want += m[j] + ",]"; } }
            else if (v[i].isMap()) { run([&] { Value c(v[j]); v[i].mutableMap().kvs["grown"] = std::move(c); }); want = m[i] = key(v[i]); if (!failed) SIM_CHECK(key(v[i].getMap().kvs.at("grown")) == (i == j ? was : m[j]), "what was put into a map is not what is there"); failed = false; }
            break;
        }
        case 13: swap(v[i], v[j]); if (i != j) std::swap(m[i], m[j]); want = m[i]; break;
        case 14: { want = m[j]; run([&] { Value t(static_cast<const Value&>(v[j])); v[i] = std::move(t); }); break; }
        case 15: { Value t(std::move(v[j])); SIM_CHECK(v[j].empty() && key(t) == m[j], "moving %s made %s", brief(m[j]).c_str(), brief(key(t)).c_str()); want = m[j]; if (i != j) m[j] = "EMPTY"; v[i] = std::move(t); break; }
        case 16: v[i].clear(); want = "EMPTY"; break;
        case 17: case 18: want = sharedKeys[sh]; run([&] { v[i] = shared[sh]; }); break;
        case 19: {                                            // equality, order and hash
            Value c(v[i]);
            SIM_CHECK(std::hash<Value>()(c) == std::hash<Value>()(v[i]), "a copy of %s has another hash", brief(m[i]).c_str());
            if (!unordered(m[i])) SIM_CHECK(c == v[i] && !(c != v[i]) && !(c < v[i]), "a copy of %s is not equal to it", brief(m[i]).c_str());
            SIM_CHECK((v[i] == v[j]) == (v[j] == v[i]) && (v[i] == v[j]) != (v[i] != v[j]), "whether %s and %s are equal depends on who is asked", brief(m[i]).c_str(), brief(m[j]).c_str());
            if (m[i] == m[j]) SIM_CHECK(std::hash<Value>()(v[i]) == std::hash<Value>()(v[j]) && (unordered(m[i]) || v[i] == v[j]), "two values that are both %s are not equal or have other hashes", brief(m[i]).c_str());
            if (v[i].isEdge() && v[i].getEdge().type) {       // the same edge seen from its other end
                Value r(v[i]); r.mutableEdge().reverse();
                SIM_CHECK(r.getEdge().type == -v[i].getEdge().type && key(r.getEdge().src) == key(v[i].getEdge().dst) && key(r.getEdge().dst) == key(v[i].getEdge().src), "%s reversed is %s", brief(m[i]).c_str(), brief(key(r)).c_str());
                SIM_CHECK(std::hash<Value>()(r) == std::hash<Value>()(v[i]) && (unordered(m[i]) || (r == v[i] && v[i] == r)), "%s reversed is another edge", brief(m[i]).c_str());
            }
            if (!unordered(m[i]) && !unordered(m[j])) SIM_CHECK(!(v[i] < v[j] && v[j] < v[i]), "%s and %s are each before the other", brief(m[i]).c_str(), brief(m[j]).c_str());
            if (m[i].find('{') == std::string::npos) SIM_CHECK(c.toString() == v[i].toString(), "a copy of %s is shown otherwise", brief(m[i]).c_str());
            break;
        }
        }
        if (failed) {                                         // what it held, what it was to hold, or nothing
            auto now = key(v[i]);
            SIM_CHECK(now == was || now == want || now == "EMPTY", "step %d, an allocation failed: %s became %s instead of %s", what, brief(was).c_str(), brief(now).c_str(), brief(want).c_str());
            want = now; count("survived");
        }
        m[i] = want;
        for (int x = 0; x < K; x++) { auto now = key(v[x]); SIM_CHECK(now == m[x], "step %d: a value holds %s instead of %s", what, brief(now).c_str(), brief(m[x]).c_str()); }
        if (m[i].size() > 4000) { v[i].clear(); m[i] = "EMPTY"; }
    }
    for (size_t i = 0; i < shared.size(); i++) SIM_CHECK(key(shared[i]) == sharedKeys[i], "%s, which was only read, is %s", brief(sharedKeys[i]).c_str(), brief(key(shared[i])).c_str());
}

// What values are made of, each with its own assignments.
template <class T> void pieces(T (*make)(), std::string (*show)(const T&), bool assignFails) {
    const int K = 3;
    T o[K]; std::string m[K];
    for (int i = 0; i < K; i++) { T f = make(); m[i] = show(f); o[i] = std::move(f); }
    int steps = 6 + pick(14);
    for (int k = 0; k < steps; k++) {
        int i = pick(K), j = pick(K);
        bool alloc = fault("alloc_fail", 1, 3), failed = false;
        auto run = [&](auto f) { memArm(alloc, 1, 8); try { f(); } catch (const std::bad_alloc&) { failed = true; } memDisarm(); };
        auto copyTo = [&](int a, int b) { auto f = [&] { if constexpr (std::is_copy_assignable<T>::value) o[a] = static_cast<const T&>(o[b]); else o[a] = T(o[b]); }; if (assignFails) run(f); else f(); };
        switch (pick(5)) {
        case 0: case 1: copyTo(i, j); if (failed) m[i] = i == j ? m[i] : show(o[i]); else m[i] = m[j]; break;
        case 2: if (i == j) { o[i] = std::move(o[j]); break; } o[i] = std::move(o[j]); m[i] = m[j]; { T f = make(); m[j] = show(f); o[j] = std::move(f); } break;
        case 3: { T f = make(); auto w = show(f); run([&] { T c(f); SIM_CHECK(show(c) == w, "a copy of %s is %s", brief(w).c_str(), brief(show(c)).c_str()); T d(std::move(c)); SIM_CHECK(show(d) == w, "%s moved is %s", brief(w).c_str(), brief(show(d)).c_str()); }); break; }
        case 4: { T f = make(); m[i] = show(f); o[i] = std::move(f); break; }
        }
        for (int x = 0; x < K; x++) SIM_CHECK(show(o[x]) == m[x], "step %d: %s became %s", k, brief(m[x]).c_str(), brief(show(o[x])).c_str());
    }
}

// Paths.
struct Hop { int to, type; int64_t rank; };
struct PM { int src; std::vector<Hop> hops; };
Path build(const PM& m) {
    Path p; p.src.vid = Value(vid(m.src));
    for (auto& h : m.hops) { Vertex d; d.vid = Value(vid(h.to)); p.addStep(Step(std::move(d), h.type, "e", h.rank, {})); }
    return p;
}
std::string keyPath(const Path& p) { return key(Value(p)); }
}  // namespace

SIM_SCENARIO(values) {
    gLongIds = pick(3) == 0;
    auto before = memStats();
    {
        std::vector<Value> shared; std::vector<std::string> keys;
        for (int i = 0; i < 3; i++) { shared.push_back(fresh()); keys.push_back(key(shared.back())); }
        int nt = 1 + pick(3);
        std::vector<std::thread> ts;
        for (int t = 1; t < nt; t++) ts.emplace_back([&] { hold(shared, keys); });
        hold(shared, keys);
        for (auto& t : ts) t.join();
    }
    auto now = memStats();
    SIM_CHECK(now.liveBlocks <= before.liveBlocks, "%lld allocations leaked", (long long)(now.liveBlocks - before.liveBlocks));
    count("ok");
}

SIM_SCENARIO(pieces) {
    gLongIds = pick(3) == 0;
    auto before = memStats();
    switch (pick(8)) {
    case 0: pieces<Vertex>([] { return vertexV(pick(4)); }, [](const Vertex& x) { return keyVertex(x); }, true); break;
    case 1: pieces<Tag>([] { auto v = vertexV(1); return v.tags.empty() ? Tag("t", {{"p", leaf(ANY, 1)}}) : v.tags[0]; }, [](const Tag& x) { return x.name + keyProps(x.props); }, true); break;
    case 2: pieces<Path>([] { Value v; do v = leaf(PATH); while (!v.isPath()); return v.movePath(); }, [](const Path& x) { return key(Value(x)); }, false); break;
    case 3: pieces<Step>([] { return Step(vertexV(pick(4)), pick(2) ? 1 : -1, pick(2) ? "e" : "f", pick(3), {{pick(2) ? "p" : "q", leaf(INT, 2)}}); }, [](const Step& x) { Path p; p.steps.push_back(x); return key(Value(p)); }, false); break;
    case 4: pieces<List>([] { Value v; do v = leaf(LIST); while (!v.isList()); return v.moveList(); }, [](const List& x) { return key(Value(x)); }, true); break;
    case 5: pieces<Map>([] { Value v; do v = leaf(MAP); while (!v.isMap()); return v.moveMap(); }, [](const Map& x) { return key(Value(x)); }, true); break;
    case 6: pieces<Set>([] { Value v; do v = leaf(SET); while (!v.isSet()); return v.moveSet(); }, [](const Set& x) { return key(Value(x)); }, true); break;
    case 7: pieces<DataSet>([] { return dataSetV(); }, [](const DataSet& x) { return key(Value(x)); }, true); break;
    }
    auto now = memStats();
    SIM_CHECK(now.liveBlocks <= before.liveBlocks, "%lld allocations leaked", (long long)(now.liveBlocks - before.liveBlocks));
    count("ok");
}

SIM_SCENARIO(paths) {
    gLongIds = pick(3) == 0;
    auto model = [&](int from) { PM m{from < 0 ? pick(4) : from, {}}; int n = pick(5); for (int i = 0; i < n; i++) m.hops.push_back({pick(5), pick(2) ? 1 + pick(2) : -1 - pick(2), (int64_t)pick(2)}); return m; };
    auto end = [](const PM& m) { return m.hops.empty() ? m.src : m.hops.back().to; };
    PM m = model(-1); Path p = build(m);
    int steps = 3 + pick(10);
    for (int k = 0; k < steps; k++) {
        switch (pick(4)) {
        case 0: {
            PM r{end(m), {}};
            for (int i = (int)m.hops.size() - 1; i >= 0; i--) r.hops.push_back({i ? m.hops[i - 1].to : m.src, -m.hops[i].type, m.hops[i].rank});
            p.reverse(); m = r;
            break;
        }
        case 1: {
            PM q = model(pick(3) ? end(m) : pick(2) ? m.src : -1); Path qp = build(q);
            bool can = q.src == end(m);
            auto old = keyPath(p);
            bool did = p.append(qp);
            SIM_CHECK(did == can, "a path from %d to %d was %sprolonged by one from %d", m.src, end(m), did ? "" : "not ", q.src);
            if (did) m.hops.insert(m.hops.end(), q.hops.begin(), q.hops.end()); else SIM_CHECK(keyPath(p) == old, "a path that was not prolonged changed");
            SIM_CHECK(keyPath(qp) == keyPath(build(q)), "the path appended changed");
            break;
        }
        case 2: { bool dup = false; std::set<int> s{m.src}; for (auto& h : m.hops) dup = !s.insert(h.to).second || dup; SIM_CHECK(p.hasDuplicateVertices() == dup, "a path %s a vertex twice and is said %s", dup ? "visits" : "does not visit", dup ? "not to" : "to"); break; }
        case 3: {
            bool dup = false; std::set<std::vector<int64_t>> s; int at = m.src;
            for (auto& h : m.hops) { std::vector<int64_t> e = h.type > 0 ? std::vector<int64_t>{at, h.to, h.type, h.rank} : std::vector<int64_t>{h.to, at, -h.type, h.rank}; dup = !s.insert(e).second || dup; at = h.to; }
            SIM_CHECK(p.hasDuplicateEdges() == dup, "a path %s an edge twice and is said %s", dup ? "uses" : "does not use", dup ? "not to" : "to");
            break;
        }
        }
        if (m.hops.size() > 20) { m = model(-1); p = build(m); }
        SIM_CHECK(keyPath(p) == keyPath(build(m)), "step %d: the path is %s instead of %s", k, brief(keyPath(p)).c_str(), brief(keyPath(build(m))).c_str());
        Path c(p); SIM_CHECK(c == p && std::hash<Path>()(c) == std::hash<Path>()(p), "a copy of a path is not equal to it");
    }
    count("ok");
}
