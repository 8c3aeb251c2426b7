// StatsManager: every value counts once in each of the windows, from any thread,
// for as long as the window reaches back.
#include "sim.h"
#include "common/base/Base.h"
#include "common/stats/StatsManager.h"
#include <folly/json.h>
#include <thread>

using namespace nebula;
using stats::StatsManager;
using stats::CounterId;
namespace {
using sim::choose;
constexpr auto W = sim::W;
constexpr int NW = 4;
const int len[NW] = {5, 60, 600, 3600};
const char* const wname[NW] = {"5", "60", "600", "3600"};
struct Val { int64_t v, from, to; uint64_t start, done; };
struct Counter {
    std::string name, spec;
    bool histo = false;
    int64_t bucket = 0, min = 0, max = 0;
    CounterId id;
    std::set<std::string> listed;            // metrics without the window
    std::vector<Val> vals;
};
struct Model { std::vector<Counter*> cs; uint64_t clk = 0; int64_t last = 0; };
int64_t nowSec(Model*) { return time::WallClock::fastNowInSec(); }

// What the values may amount to in one window, given when the reading took place.
struct Sums { int64_t cntLo = 0, cntHi = 0, sumLo = 0, sumHi = 0, vmin = INT64_MAX, vmax = INT64_MIN, oldest = INT64_MAX; bool exact = true; std::vector<int64_t> in; };
Sums window(Counter* c, int w, int64_t n0, int64_t n1, uint64_t r0, uint64_t r1) {
    sim::NoPreempt np;
    Sums s;
    int64_t b = std::max(1, len[w] / 60);
    for (auto& v : c->vals) {
        if (v.start > r1) continue;
        if (n0 - v.to >= len[w] + 1) continue;
        bool sure = v.done && v.done < r0 && n1 - v.from + 1 < len[w] - b;
        s.cntHi++;
        s.vmin = std::min(s.vmin, v.v); s.vmax = std::max(s.vmax, v.v);
        if (v.v > 0 || sure) s.sumHi += v.v;
        if (v.v < 0 || sure) s.sumLo += v.v;
        if (sure) { s.cntLo++; s.in.push_back(v.v); s.oldest = std::min(s.oldest, v.from); } else s.exact = false;
    }
    return s;
}
int64_t bucketLow(Counter* c, int64_t v) { return c->min + (v - c->min) / c->bucket * c->bucket; }

struct Metric { const char* text; double pct; };                       // pct < 0: a method
const Metric metrics[] = {{"sum", -1}, {"count", -1}, {"avg", -1}, {"rate", -1}, {"p50", 50}, {"p99", 99}, {"p5", 5}, {"p999", 99.9}, {"p100", 10.0}, {"p9999", 99.99}, {"p25", 25}, {"p0", 0}, {"p50000", 50}, {"p500000", 50}, {"p100000", 10}, {"p75000", 75}};

void judge(Counter* c, const Metric& m, int w, int64_t got, int64_t n0, int64_t n1, uint64_t r0, uint64_t r1, const char* how) {
    auto s = window(c, w, n0, n1, r0, r1);
    auto bad = [&](const char* why) {
        std::string h;
        { sim::NoPreempt np; for (auto& v : c->vals) { h += " " + std::to_string(v.v) + "@" + std::to_string(v.from - n0) + (v.done ? "" : "?"); if (h.size() > 600) break; } }
        sim::violation("%s of %s.%s.%s is %lld: %s (count %lld..%lld, sum %lld..%lld; values:%s)", how, c->name.c_str(), m.text, wname[w], (long long)got, why, (long long)s.cntLo, (long long)s.cntHi, (long long)s.sumLo, (long long)s.sumHi, h.c_str());
    };
    std::string t = m.text;
    if (t == "sum") { if (got < s.sumLo || got > s.sumHi) bad("not the sum of the values of the window"); }
    else if (t == "count") { if (got < s.cntLo || got > s.cntHi) bad("not the number of values of the window"); }
    else if (t == "avg") {
        if (s.cntHi == 0) { if (got != 0) bad("there is no value"); return; }
        if (s.cntLo == 0 && got == 0) return;
        if (got < s.vmin || got > s.vmax) bad("outside of the values of the window");
        if (s.exact && got != s.sumLo / s.cntLo) bad("not the mean");
    } else if (t == "rate") {
        if (s.cntHi == 0) { if (got != 0) bad("there is no value"); return; }
        if (s.exact && s.sumLo >= 0) {                              // over the time since the first value, at most the window
            int64_t most = std::min<int64_t>(len[w], n1 - s.oldest + 3), least = std::min<int64_t>(len[w], n0 - s.oldest + 1) - std::max(1, len[w] / 60) - 2;
            int64_t lo = s.sumLo / most, hi = s.sumLo / std::max<int64_t>(1, least);
            // values that left the window may lengthen the time it covers
            bool left = false;
            { sim::NoPreempt np; for (auto& v : c->vals) if (v.from < s.oldest) left = true; }
            if (left) lo = std::min(lo, s.sumLo / len[w]);
            if (got < lo || got > hi) bad("not the sum per second");
        } else if (s.sumLo >= 0 && (got < 0 || got > s.sumHi)) bad("not the sum per second");
    } else {
        if (s.cntHi == 0) { if (got != 0) bad("there is no value"); return; }
        if (!s.exact) { if (s.cntLo == 0 && got == 0) return; }
        auto clampLow = [&](int64_t v) { return v < c->min || v >= c->max ? v : bucketLow(c, v); };
        auto clampHigh = [&](int64_t v) { return v < c->min || v >= c->max ? v : bucketLow(c, v) + c->bucket; };
        if (got < std::min(clampLow(s.vmin), s.vmin) || got > std::max(clampHigh(s.vmax), s.vmax)) bad("outside of the values of the window");
        if (s.exact) {
            std::sort(s.in.begin(), s.in.end());
            double n = s.in.size(), want = m.pct / 100.0;
            // the values next to the wanted rank
            size_t k = std::min<size_t>(s.in.size() - 1, (size_t)(want * n));
            size_t a = k > 0 ? k - 1 : 0, b = std::min(s.in.size() - 1, k + 1);
            if (std::abs(want * n - std::round(want * n)) > 1e-6) { a = k; b = k; }
            auto lowOf = [&](int64_t v) { if (v < c->min || v >= c->max) { int64_t r = v; for (auto x : s.in) if ((v < c->min) == (x < c->min) && (v >= c->max) == (x >= c->max)) r = std::min(r, x); return r; } return bucketLow(c, v); };
            auto highOf = [&](int64_t v) { if (v < c->min || v >= c->max) { int64_t r = v; for (auto x : s.in) if ((v < c->min) == (x < c->min) && (v >= c->max) == (x >= c->max)) r = std::max(r, x); return r; } return bucketLow(c, v) + c->bucket; };
            if (got < lowOf(s.in[a]) || got > highOf(s.in[b])) bad("far from the percentile");
        }
    }
    sim::count(s.exact ? "exact_reads" : "bounded_reads");
}
}  // namespace

SIM_SCENARIO(stats_windows) {
    sim::setTscHz(sim::faultsOn() && choose(W, 2) ? 1000000000ULL : 2500000000ULL, 1000000);
    auto* m = new Model();
    sim::setClockLimitNs(100LL * 3600 * 1000000000);
    int nc = 1 + choose(W, 4);
    static const char* specs[] = {"", "sum", "count,avg", " Sum , RATE", "avg,p99", "p50, P999,count", "nonsense,sum", "p,px,p1e9,p-1,count", "rate,p25,,avg"};
    static const std::set<std::string> parsed[] = {{}, {"sum"}, {"count", "avg"}, {"sum", "rate"}, {"avg", "p99"}, {"p50", "p999", "count"}, {"sum"}, {"count"}, {"rate", "p25", "avg"}};
    for (int i = 0; i < nc; i++) {
        auto* c = new Counter();
        c->name = "c" + std::to_string(i);
        c->histo = choose(W, 2);
        int again = choose(W, 4) == 1 ? 2 : 1;
        for (int k = 0; k < again; k++) {
            int sp = choose(W, 9);
            CounterId id;
            if (c->histo) {
                if (!k) { static const int64_t bs[] = {1, 10, 25}; c->bucket = bs[choose(W, 3)]; c->min = choose(W, 2) ? 0 : -50; c->max = c->min + c->bucket * (1 + choose(W, 10)); }
                id = StatsManager::registerHisto(c->name, c->bucket, c->min, c->max, specs[sp]);
            } else id = StatsManager::registerStats(c->name, specs[sp]);
            SIM_CHECK(id.valid(), "registering %s gives no id", c->name.c_str());
            if (k) SIM_CHECK(id.index() == c->id.index(), "registering %s again gives another id", c->name.c_str());
            else c->id = id;
            c->listed.clear();
            for (auto& p : parsed[sp]) if (c->histo || p[0] != 'p') c->listed.insert(p);
        }
        for (auto* d : m->cs) SIM_CHECK(d->id.index() != c->id.index(), "%s and %s have the same id", d->name.c_str(), c->name.c_str());
        m->cs.push_back(c);
    }
    auto pause = [m](int style) {
        static const int64_t ms[] = {0, 100, 900, 3000, 20000, 150000, 1200000};
        int64_t d = ms[choose(W, style ? 7 : 4)];
        if (d) sim::sleepNs((d + choose(W, 1000)) * 1000000LL);
        if (sim::faultsOn() && choose(W, 20) == 1 && sim::fault("wall_clock_step", 1, 1)) sim::stepRealtime((int64_t)choose(sim::F, 400) * 1000000000LL);
    };
    int style = choose(W, 2);
    auto add = [m, pause, style](int n) {
        for (int k = 0; k < n; k++) {
            auto* c = m->cs[choose(W, m->cs.size())];
            static const int64_t vs[] = {1, 1, 10, 33, 70, 500, -20, 1000000};
            Val v;
            bool dflt = choose(W, 4) == 1;
            v.v = dflt ? 1 : vs[choose(W, 8)] + (choose(W, 2) ? choose(W, 20) : 0);
            size_t at;
            v.done = 0; v.to = INT64_MAX;
            { v.from = nowSec(m); sim::NoPreempt np; v.start = ++m->clk; at = c->vals.size(); c->vals.push_back(v); }
            if (dflt) StatsManager::addValue(c->id); else StatsManager::addValue(c->id, v.v);
            int64_t to = nowSec(m);
            { sim::NoPreempt np; c->vals[at].to = to; c->vals[at].done = ++m->clk; }
            sim::count("values");
            if (choose(W, 3) == 1) pause(style);
        }
    };
    int nh = 0;
    for (auto* c : m->cs) nh += c->histo;
    auto read = [m, nh, pause, style](int n) {
        for (int k = 0; k < n; k++) {
            auto* c = m->cs[choose(W, m->cs.size())];
            auto& mt = metrics[choose(W, 16)];
            int w = choose(W, NW), how = choose(W, 8);
            int64_t n0 = nowSec(m), n1;
            uint64_t r0, r1;
            { sim::NoPreempt np; r0 = ++m->clk; }
            auto over = [&] { n1 = nowSec(m); sim::NoPreempt np; r1 = ++m->clk; };
            bool pct = mt.pct >= 0;
            if (how == 7) {                                        // everything at once
                folly::dynamic d = folly::dynamic::array();
                StatsManager::readAllValue(d);
                over();
                std::map<std::string, int64_t> got;
                for (auto& x : d) for (auto& kv : x.items()) got[kv.first.asString()] = kv.second.asInt();
                size_t want = 0;
                for (auto* x : m->cs) for (auto& l : x->listed) for (int i = 0; i < NW; i++) {
                    want++;
                    auto nm = x->name + "." + l + "." + wname[i];
                    SIM_CHECK(got.count(nm), "readAllValue does not list %s", nm.c_str());
                    for (auto& y : metrics) if (l == y.text) judge(x, y, i, got[nm], n0, n1, r0, r1, "readAllValue");
                }
                SIM_CHECK(d.size() == want && got.size() == want, "readAllValue lists %zu metrics, %zu were registered", d.size(), want);
            } else if (how == 6) {                                 // names that mean nothing
                static const char* bad[] = {"", ".", "c0", "c0.sum", "c0.sum.60.x", "nosuch.sum.60", "c0.sum.61", "c0.min.60", "c0.p.60", "c0.pq.60", "c0.p1234567.60", "c0.p-3.60", "c0.p1e9.60", "c0.pnan.5", "nosuch.p99.5", "%s.%n.%d", "c0.p999e9.5", "c0.sum.%s"};
                auto* b = bad[choose(W, 18)];
                auto r = StatsManager::readValue(b);
                SIM_CHECK(!r.ok(), "readValue(\"%s\") gives %lld", b, (long long)r.value());
                SIM_CHECK(!r.status().toString().empty(), "no message");
                SIM_CHECK(!StatsManager::readStats(CounterId(), StatsManager::TimeRange::ONE_HOUR, StatsManager::StatsMethod::SUM).ok(), "a counter that was never registered is read");
                SIM_CHECK(!StatsManager::readHisto(CounterId(choose(W, 2) ? -1000 : -1 - nh), StatsManager::TimeRange::ONE_HOUR, 5).ok(), "a histogram that was never registered is read");
            } else {
                StatusOr<int64_t> r = Status::Error("?");
                auto range = static_cast<StatsManager::TimeRange>(w);
                if (how < 3) {
                    std::string nm = c->name + "." + mt.text + "." + wname[w];
                    if (choose(W, 3) == 1) for (size_t i = c->name.size(); i < nm.size(); i++) nm[i] = toupper(nm[i]);
                    r = StatsManager::readValue(nm);
                } else if (pct) r = how < 5 ? StatsManager::readHisto(c->id, range, mt.pct) : StatsManager::readHisto(c->name, range, mt.pct);
                else {
                    auto me = mt.text[0] == 's' ? StatsManager::StatsMethod::SUM : mt.text[0] == 'c' ? StatsManager::StatsMethod::COUNT : mt.text[0] == 'a' ? StatsManager::StatsMethod::AVG : StatsManager::StatsMethod::RATE;
                    r = how < 5 ? StatsManager::readStats(c->id, range, me) : StatsManager::readStats(c->name, range, me);
                }
                over();
                if (pct && !c->histo) { SIM_CHECK(!r.ok(), "a percentile of %s, which is no histogram, is %lld", c->name.c_str(), (long long)r.value()); continue; }
                SIM_CHECK(r.ok(), "%s.%s.%s cannot be read: %s", c->name.c_str(), mt.text, wname[w], r.status().toString().c_str());
                judge(c, mt, w, r.value(), n0, n1, r0, r1, "reading");
            }
            if (choose(W, 3) == 1) pause(style);
        }
    };
    int rounds = 1 + choose(W, 4);
    for (int r = 0; r < rounds; r++) {
        int na = 1 + choose(W, 3), nr = choose(W, 3), each = 1 + choose(W, 8);
        std::vector<std::thread> ts;
        for (int i = 0; i < na; i++) ts.emplace_back(add, each);
        for (int i = 0; i < nr; i++) ts.emplace_back(read, 1 + (int)choose(W, 4));
        for (auto& t : ts) t.join();
        read(2 + choose(W, 4));                                    // nothing else runs
        pause(1);
        read(2 + choose(W, 4));
    }
}
