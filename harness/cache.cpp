// Shared containers and aggregators: ConcurrentLRUCache, ObjectPool,
// collectNSucceeded, ReservoirSampling.
#include "sim.h"
#include "common/base/Base.h"
#include "common/base/ConcurrentLRUCache.h"
#include "common/base/ObjectPool.h"
#include "common/base/CollectNSucceeded.h"
#include "common/algorithm/ReservoirSampling.h"
#include <folly/futures/Future.h>

using namespace sim;
using nebula::ConcurrentLRUCache;
using nebula::ObjectPool;

namespace {
// ------------------------------------------------------------ the LRU model
struct LruBucket {
    size_t cap;
    std::vector<std::pair<int, int>> items;      // most recently used first
    int find(int k) const { for (size_t i = 0; i < items.size(); ++i) if (items[i].first == k) return (int)i; return -1; }
    void touch(int i) { auto x = items[i]; items.erase(items.begin() + i); items.insert(items.begin(), x); }
};
struct LruModel {
    std::vector<LruBucket> b;
    uint64_t hits = 0, total = 0, evicts = 0;
    LruModel(size_t cap, uint32_t exp) {
        size_t n = (size_t)1 << exp, each = cap >> exp;
        for (size_t i = 0; i + 1 < n; ++i) b.push_back({each, {}});
        b.push_back({cap - each * (n - 1), {}});
    }
    void put(LruBucket& x, int k, int v) {
        int i = x.find(k);
        if (i >= 0) { x.items[i].second = v; x.touch(i); return; }
        if (x.items.size() >= x.cap) { x.items.pop_back(); evicts++; }
        x.items.insert(x.items.begin(), {k, v});
    }
    std::string key() const {
        std::string s;
        for (auto& x : b) { for (auto& i : x.items) { s += std::to_string(i.first) + "=" + std::to_string(i.second) + ","; } s += '|'; }
        return s + std::to_string(evicts);
    }
};
enum { INSERT, GET, PUTABSENT, CONTAINS, EVICT };
const char* kOp[] = {"insert", "get", "putIfAbsent", "contains", "evict"};
constexpr int MISS = -1, DONE = -2, INSERTED = -3, YES = -4, NO = -5;
struct Op { int thread, op, hint, key, val, res; uint64_t inv, ret; };

// What the model answers to an operation.
int apply(LruModel& m, const Op& o) {
    LruBucket& x = m.b[o.hint & (m.b.size() - 1)];
    int i = x.find(o.key);
    switch (o.op) {
        case INSERT: m.put(x, o.key, o.val); return DONE;
        case CONTAINS: return i >= 0 ? YES : NO;
        case EVICT: if (i >= 0) { x.items.erase(x.items.begin() + i); m.evicts++; } return DONE;
        case GET:
            m.total++;
            if (i < 0) return MISS;
            { int v = x.items[i].second; x.touch(i); m.hits++; return v; }
        default:
            m.total++;
            if (i < 0) { m.put(x, o.key, o.val); return INSERTED; }
            { int v = x.items[i].second; x.touch(i); m.hits++; return v; }
    }
}

using Cache = ConcurrentLRUCache<std::string, std::string>;
std::string keyOf(int k) { return "key-that-is-not-short-" + std::to_string(k); }
std::string valOf(int v) { return "value-that-is-not-short-either-" + std::to_string(v); }
int unVal(const std::string& s) {
    SIM_CHECK(s.size() > 31 && s.compare(0, 31, "value-that-is-not-short-either-") == 0, "a value came back mangled");
    return atoi(s.c_str() + 31);
}

int run(Cache& c, Op& o, bool useHint) {
    int h = useHint ? o.hint : -1;
    switch (o.op) {
        case INSERT: c.insert(keyOf(o.key), valOf(o.val), h); return DONE;
        case CONTAINS: return c.contains(keyOf(o.key), h) ? YES : NO;
        case EVICT: c.evict(keyOf(o.key), h); return DONE;
        case GET: { auto v = c.get(keyOf(o.key), h); return v.ok() ? unVal(v.value()) : MISS; }
        default: {
            auto v = c.putIfAbsent(keyOf(o.key), valOf(o.val), h);
            if (v.ok()) return unVal(v.value());
            SIM_CHECK(v.status() == nebula::Status::Inserted(), "putIfAbsent() of an absent key returned '%s'", v.status().toString().c_str());
            return INSERTED;
        }
    }
}

// Is there an order of the operations, consistent with their real-time order, in
// which the model gives all the answers, and ends with these counters?
struct Lin {
    std::vector<Op>& h;
    uint64_t evicts;
    std::set<std::string> seen;
    uint64_t work = 0;
    bool dfs(uint64_t done, size_t left, const LruModel& m) {
        if (left == 0) return m.evicts == evicts;
        if (++work > 400000) { count("linearizability_search_cut"); return true; }
        std::string k = std::to_string(done) + "/" + m.key();
        if (!seen.insert(k).second) return false;
        uint64_t minRet = ~0ull;
        for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) minRet = std::min(minRet, h[i].ret);
        for (size_t i = 0; i < h.size(); ++i) {
            if ((done >> i & 1) || h[i].inv > minRet) continue;
            LruModel n = m;
            if (apply(n, h[i]) != h[i].res) continue;
            if (dfs(done | 1ull << i, left - 1, n)) return true;
        }
        return false;
    }
};
std::string dump(const std::vector<Op>& h) {
    std::string s;
    for (auto& o : h) s += folly::stringPrintf("\n  thread %d [%llu,%llu] %s(%d,%d)@%d -> %d", o.thread, (unsigned long long)o.inv, (unsigned long long)o.ret, kOp[o.op], o.key, o.val, o.hint, o.res);
    return s;
}
Op drawOp(int keys, int buckets, int& nextVal) {
    Op o{};
    static const int w[] = {INSERT, INSERT, INSERT, GET, GET, GET, PUTABSENT, PUTABSENT, CONTAINS, EVICT};
    o.op = w[choose(W, 10)];
    o.key = choose(W, keys);
    o.hint = choose(W, buckets * 2);
    o.val = nextVal++;
    return o;
}
}  // namespace

// Several threads on a small cache: the whole history is explained by one order
// of the operations on an exact LRU cache, counters included.
SIM_SCENARIO(lru_shared) {
    uint32_t exp = choose(W, 3);
    size_t nb = (size_t)1 << exp, cap = nb + 1 + choose(W, (uint32_t)nb + 2);
    auto* c = new Cache(cap, exp);
    bool useHint = exp > 0;             // with one bucket the key alone decides nothing
    LruModel m(cap, exp);
    int keys = 2 + choose(W, 4), nextVal = 1;
    std::vector<Op> h;
    uint64_t clk = 1;
    int pre = choose(W, 6);
    for (int i = 0; i < pre; ++i) {     // a known start
        Op o = drawOp(keys, (int)nb, nextVal);
        int r = run(*c, o, useHint), e = apply(m, o);
        SIM_CHECK(r == e, "%s(%d)@%d returned %d instead of %d", kOp[o.op], o.key, o.hint, r, e);
    }
    LruModel start = m;
    int nt = 2 + choose(W, 2), each = 2 + choose(W, nt == 2 ? 5 : 4);
    std::vector<std::vector<Op>> plan(nt);
    for (int t = 0; t < nt; ++t) for (int i = 0; i < each; ++i) { plan[t].push_back(drawOp(keys, (int)nb, nextVal)); plan[t].back().thread = t + 1; }
    uint64_t total0 = m.total, gets = 0;
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) {
        ts.emplace_back([&, t] {
            for (auto& o : plan[t]) {
                { NoPreempt np; o.inv = clk++; if (o.op == GET || o.op == PUTABSENT) gets++; }
                o.res = run(*c, o, useHint);
                { NoPreempt np; o.ret = clk++; h.push_back(o); }
            }
        });
    }
    int peeks = choose(W, 4);
    for (int i = 0; i < peeks; ++i) {
        yieldPoint();
        uint64_t t = c->total(), hi = c->hits();
        NoPreempt np;
        SIM_CHECK(t <= total0 + gets && hi <= total0 + gets, "the cache counted %llu look-ups and %llu hits of at most %llu look-ups", (unsigned long long)t, (unsigned long long)hi, (unsigned long long)(total0 + gets));
        (void)c->evicts();
    }
    for (auto& t : ts) t.join();
    // reading everything back pins down the state the threads left behind
    for (size_t b = 0; b < nb; ++b)
        for (int k = 0; k < keys; ++k) {
            Op o{0, CONTAINS, (int)b, k, 0, 0, clk++, 0};
            o.res = run(*c, o, useHint); o.ret = clk++;
            h.push_back(o);
        }
    // ... and filling one bucket with fresh keys shows the order of eviction
    int fb = choose(W, (uint32_t)nb);
    for (int i = 0; i < 3; ++i) {
        Op o{0, INSERT, fb, 100 + i, nextVal++, 0, clk++, 0};
        o.res = run(*c, o, useHint); o.ret = clk++;
        h.push_back(o);
        for (int k = 0; k < keys; ++k) {
            Op p{0, CONTAINS, fb, k, 0, 0, clk++, 0};
            p.res = run(*c, p, useHint); p.ret = clk++;
            h.push_back(p);
        }
    }
    uint64_t hits = start.hits, total = start.total;
    for (auto& o : h) if (o.op == GET || o.op == PUTABSENT) { total++; if (o.res >= 0) hits++; }
    SIM_CHECK(c->total() == total && c->hits() == hits, "the cache counted %llu look-ups and %llu hits; there were %llu and %llu", (unsigned long long)c->total(), (unsigned long long)c->hits(), (unsigned long long)total, (unsigned long long)hits);
    if (h.size() <= 64) {
        NoPreempt np;
        Lin lin{h, c->evicts(), {}};
        bool ok = lin.dfs(0, h.size(), start);
        SIM_CHECK(ok, "no order of these operations on a cache of %zu in %zu buckets explains the answers (%llu evicted):%s", cap, nb, (unsigned long long)c->evicts(), dump(h).c_str());
    } else count("history_too_long");
    delete c;
}

// Long histories on one thread against the exact model, with clear() and failing
// allocations.
SIM_SCENARIO(lru_history) {
    uint32_t exp = choose(W, 4);
    size_t nb = (size_t)1 << exp, cap = nb + 1 + choose(W, 40);
    bool alloc = faultsOn() && choose(W, 2);
    bool useHint = exp > 0;
    auto* c = new Cache(cap, exp);
    LruModel m(cap, exp);
    int keys = 2 + choose(W, (uint32_t)cap * 2), nextVal = 1, steps = 20 + choose(W, 150);
    for (int i = 0; i < steps; ++i) {
        if (choose(W, 60) == 59) { c->clear(); m = LruModel(cap, exp); }
        Op o = drawOp(keys, (int)nb, nextVal);
        int r = 0;
        bool failed = false;
        memArm(alloc, 1, 60);
        try { r = run(*c, o, useHint); } catch (const std::bad_alloc&) { failed = true; }
        memDisarm();
        if (failed) {
            // What a failed operation changed is open, but the cache stays a cache:
            // fresh keys enter every bucket up to its capacity and not beyond.
            count("operation_out_of_memory");
            for (size_t b = 0; b < nb; ++b) {
                size_t bc = m.b[b].cap;
                for (size_t k = 0; k < bc * 2 + 1; ++k) c->insert(keyOf(1000 + (int)k), valOf((int)k), useHint ? (int)b : -1);
                for (size_t k = 0; k < bc * 2 + 1; ++k) {
                    bool in = c->contains(keyOf(1000 + (int)k), useHint ? (int)b : -1);
                    SIM_CHECK(in == (k >= bc + 1), "after an operation ran out of memory and %zu fresh keys were put into a bucket for %zu, key %zu is %s", bc * 2 + 1, bc, k, in ? "still there" : "gone");
                }
                for (int k = 0; k < keys; ++k) SIM_CHECK(!c->contains(keyOf(k), useHint ? (int)b : -1), "after an operation ran out of memory an old key outlived %zu newer ones in a bucket for %zu", bc * 2 + 1, bc);
            }
            c->clear(); m = LruModel(cap, exp);
            continue;
        }
        int e = apply(m, o);
        SIM_CHECK(r == e, "%s(%d)@%d returned %d instead of %d (capacity %zu in %zu buckets)", kOp[o.op], o.key, o.hint, r, e, cap, nb);
        SIM_CHECK(c->total() == m.total && c->hits() == m.hits && c->evicts() == m.evicts, "counters total/hits/evicts %llu/%llu/%llu instead of %llu/%llu/%llu",
                  (unsigned long long)c->total(), (unsigned long long)c->hits(), (unsigned long long)c->evicts(), (unsigned long long)m.total, (unsigned long long)m.hits, (unsigned long long)m.evicts);
    }
    // without hints a key is always found where it was put, and the whole holds no more than its capacity
    Cache d(cap, exp);
    size_t n = cap * 3, held = 0;
    for (size_t k = 0; k < n; ++k) {
        d.insert(keyOf((int)k), valOf((int)k));
        auto v = d.get(keyOf((int)k));
        SIM_CHECK(v.ok() && unVal(v.value()) == (int)k, "a key just put into the cache is not found");
    }
    for (size_t k = 0; k < n; ++k) held += d.contains(keyOf((int)k));
    SIM_CHECK(held <= cap, "a cache for %zu holds %zu", cap, held);
    SIM_CHECK(d.evicts() == n - held, "%llu evictions counted, %zu happened", (unsigned long long)d.evicts(), n - held);
    delete c;
}

// -------------------------------------------------------------- object pool
namespace {
struct Reg { std::vector<int> born, dead; int late = 0; };
Reg* g_reg;
template <int N>
struct Obj {
    int id;
    std::string payload;
    explicit Obj(int i, bool boom = false) : id(i), payload("payload-of-some-length-" + std::to_string(i * N)) {
        if (boom) throw std::runtime_error("no object");
        NoPreempt np;
        if ((int)g_reg->born.size() <= i) { g_reg->born.resize(i + 1); g_reg->dead.resize(i + 1); }
        g_reg->born[i]++;
    }
    ~Obj() {
        SIM_CHECK(payload.size() > 23 && payload.compare(0, 23, "payload-of-some-length-") == 0 && atoi(payload.c_str() + 23) == id * N, "object %d is destroyed as another type or after its end", id);
        if (id % 3 == 0) yieldPoint();
        NoPreempt np;
        SIM_CHECK(g_reg->dead[id]++ == 0, "object %d was destroyed twice", id);
    }
};
}  // namespace

SIM_SCENARIO(object_pool) {
    Reg reg; g_reg = &reg;
    reg.born.assign(256, 0); reg.dead.assign(256, 0);
    bool alloc = faultsOn() && choose(W, 3) == 1;
    auto* pool = new ObjectPool();
    SIM_CHECK(pool->empty(), "a new pool is not empty");
    uint64_t clk = 1;
    struct Rec { uint64_t inv = 0, ret = 0; bool mine = false; };      // mine: the pool never took it
    std::vector<Rec> recs(256);
    std::vector<std::pair<uint64_t, uint64_t>> clears;
    int nt = 1 + choose(W, 3), each = 1 + choose(W, 8), rounds = 1 + choose(W, 2), id = 0;
    for (int r = 0; r < rounds; ++r) {
        int nc = choose(W, 3);
        bool quiet = nc == 0;                // nobody clears the pool meanwhile
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t) {
            int from = id; id += each;
            int kinds = choose(W, 0x7fffffff);
            ts.emplace_back([&, from, kinds] {
                for (int i = 0; i < each; ++i) {
                    int me = from + i, kind = (kinds >> (i % 10 * 3)) & 7;
                    Rec& rec = recs[me];
                    { NoPreempt np; rec.inv = clk++; }
                    memArm(alloc, 1, 30);
                    try {
                        if (kind < 3) {
                            auto* o = pool->makeAndAdd<Obj<1>>(me);
                            if (quiet) SIM_CHECK(o->id == me, "makeAndAdd() returned another object");
                        } else if (kind < 5) {
                            auto* o = pool->makeAndAdd<Obj<77>>(me);
                            if (quiet) SIM_CHECK(o->id == me, "makeAndAdd() returned another object");
                        } else if (kind == 5) {
                            bool thrown = false;
                            try { pool->makeAndAdd<Obj<5>>(me, true); } catch (const std::runtime_error&) { thrown = true; }
                            SIM_CHECK(thrown, "the exception of a constructor got lost");
                            rec.mine = true;
                        } else {
                            memDisarm();
                            auto* n = new Obj<9>(me);
                            auto* o = pool->add(n);
                            SIM_CHECK(o == n, "add() returned another object");
                        }
                    } catch (const std::bad_alloc&) {
                        memDisarm();
                        count("add_out_of_memory");
                        rec.mine = true;
                    }
                    memDisarm();
                    { NoPreempt np; rec.ret = clk++; }
                }
            });
        }
        for (int i = 0; i < nc; ++i) {
            yieldPoint();
            uint64_t a;
            { NoPreempt np; a = clk++; }
            pool->clear();
            { NoPreempt np; clears.push_back({a, clk++}); }
            NoPreempt np;
            for (int k = 0; k < id; ++k)
                if (recs[k].ret && recs[k].ret < a && reg.born[k]) SIM_CHECK(reg.dead[k], "object %d was in the pool before clear() and lives after it", k);
        }
        for (auto& t : ts) t.join();
        NoPreempt np;
        int live = 0;
        for (int k = 0; k < id; ++k) {
            if (recs[k].mine) { SIM_CHECK(reg.born[k] == reg.dead[k], "object %d, which the pool did not take for lack of memory, was leaked", k); continue; }
            SIM_CHECK(reg.born[k] == 1, "object %d was made %d times", k, reg.born[k]);
            bool may = false;
            for (auto& c : clears) if (c.second > recs[k].inv) may = true;
            SIM_CHECK(may || !reg.dead[k], "object %d was destroyed although the pool was not cleared since it was added", k);
            live += !reg.dead[k];
        }
        SIM_CHECK(pool->empty() == (live == 0), "empty() is %d with %d objects alive", (int)pool->empty(), live);
    }
    delete pool;
    for (int k = 0; k < id; ++k) SIM_CHECK(reg.born[k] == reg.dead[k], "object %d outlives its pool", k);
}

// ------------------------------------------------------------ collect n of m
namespace {
// One thread that runs what it is given, in order.
struct SerialExecutor : folly::Executor {
    std::mutex m; std::condition_variable cv; std::deque<folly::Func> q; bool stop = false;
    std::thread t;
    SerialExecutor() : t([this] {
        for (;;) {
            folly::Func f;
            { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return stop || !q.empty(); }); if (q.empty()) return; f = std::move(q.front()); q.pop_front(); }
            f();
        }
    }) {}
    void add(folly::Func f) override { { std::lock_guard<std::mutex> g(m); q.push_back(std::move(f)); } cv.notify_one(); }
    ~SerialExecutor() { { std::lock_guard<std::mutex> g(m); stop = true; } cv.notify_one(); t.join(); }
};
}  // namespace

SIM_SCENARIO(collect_n) {
    size_t total = choose(W, 7), n = choose(W, (uint32_t)total + 2);
    auto* ex = new SerialExecutor();
    struct St { std::vector<int> evalOrder; std::vector<std::pair<int, bool>> judged; bool settled = false; size_t accepted = 0; };
    St st;
    std::vector<folly::Promise<std::string>> ps(total);
    std::vector<folly::Future<std::string>> fs;
    std::vector<int> how(total);         // 0 good, 1 rejected, 2 exception, 3 dropped promise
    for (auto& h : how) { static const int w[] = {0, 0, 0, 1, 1, 2, 3}; h = w[choose(W, 7)]; }
    size_t early = choose(W, (uint32_t)total + 1);
    auto settle = [&](size_t i) {
        auto p = std::move(ps[i]);
        if (how[i] == 2) p.setException(std::runtime_error("failed"));
        else if (how[i] < 2) p.setValue(valOf((int)i));
    };
    for (size_t i = 0; i < total; ++i) fs.emplace_back(ps[i].getFuture().via(ex));
    for (size_t i = 0; i < early; ++i) settle(i);
    auto res = nebula::collectNSucceeded(fs.begin(), fs.end(), n, [&](size_t idx, std::string& v) {
        NoPreempt np;
        SIM_CHECK(unVal(v) == (int)idx, "the evaluator is shown the value of %d as that of %zu", unVal(v), idx);
        for (auto& j : st.judged) SIM_CHECK(j.first != (int)idx, "the value of %zu is judged twice", idx);
        SIM_CHECK(st.accepted < n, "a value is judged although %zu have been accepted", n);
        bool ok = how[idx] == 0;
        st.judged.push_back({(int)idx, ok});
        if (ok) st.accepted++;
        return ok;
    });
    std::vector<std::thread> ts;
    int nt = 1 + choose(W, 3);
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] { for (size_t i = early + t; i < total; i += nt) settle(i); });
    bool refused = total < n && n > 0;
    if (n == 0 || refused) SIM_CHECK(res.isReady(), "nothing is to be waited for, but the result is not there");
    try {
        auto out = std::move(res).get();
        NoPreempt np;
        SIM_CHECK(!refused, "%zu successes were promised out of %zu", n, total);
        if (n == 0) SIM_CHECK(out.empty(), "values were collected although none was asked for");
        else {
            // the settling condition
            size_t good = 0;
            for (size_t i = 0; i < total; ++i) good += how[i] == 0;
            SIM_CHECK(st.accepted == std::min(n, good), "the result came after %zu of %zu successes (of %zu wanted)", st.accepted, good, n);
            std::set<size_t> seen;
            for (auto& p : out) {
                SIM_CHECK(p.first < total && unVal(p.second) == (int)p.first, "the result gives value %d for %zu", unVal(p.second), p.first);
                SIM_CHECK(seen.insert(p.first).second, "%zu is in the result twice", p.first);
                bool judged = false;
                for (auto& j : st.judged) judged = judged || j.first == (int)p.first;
                SIM_CHECK(judged, "%zu is in the result without having been judged", p.first);
            }
            for (auto& j : st.judged) if (j.second) SIM_CHECK(seen.count(j.first), "the accepted value of %d is missing in the result", j.first);
        }
    } catch (const std::runtime_error& e) {
        SIM_CHECK(refused, "the result is the exception '%s'", e.what());
    }
    for (auto& t : ts) t.join();
    delete ex;
}

// ----------------------------------------------------------------- sampling
SIM_SCENARIO(reservoir) {
    setBulkRandom(1 + (uint64_t)choose(W, 0x7fffffff) * 0x10001);
    size_t k = choose(W, 6), n = choose(W, 2) ? k + choose(W, 7) : choose(W, 12);
    int trials = 1500;
    std::vector<int> hit(n, 0);
    std::map<std::pair<int, int>, int> pairs;
    for (int t = 0; t < trials; ++t) {
        nebula::algorithm::ReservoirSampling<std::string> s(k);
        size_t taken = 0;
        for (size_t i = 0; i < n; ++i) {
            std::string v = valOf((int)i);
            bool in = s.sampling(std::move(v));
            if (i < k) SIM_CHECK(in, "value %zu was not taken although the sample of %zu was not full", i, k);
            taken += in;
        }
        auto out = std::move(s).samples();
        SIM_CHECK(out.size() == std::min(k, n), "%zu of %zu values sampled, %zu were asked for", out.size(), n, k);
        std::set<int> got;
        for (auto& v : out) { int i = unVal(v); SIM_CHECK(i >= 0 && i < (int)n && got.insert(i).second, "value %d is in the sample twice", i); hit[i]++; }
        SIM_CHECK(taken >= out.size(), "%zu values were reported taken, the sample has %zu", taken, out.size());
    }
    if (k == 0 || n <= k) return;
    double p = (double)k / (double)n, tol = 7 * sqrt(p * (1 - p) / trials);
    for (size_t i = 0; i < n; ++i) {
        double f = (double)hit[i] / trials;
        SIM_CHECK(fabs(f - p) <= tol, "value %zu of %zu is in %.1f%% of the samples of %zu instead of %.1f%%", i, n, f * 100, k, p * 100);
    }
}
