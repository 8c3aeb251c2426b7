// The built-in functions: what is called pure answers from its arguments alone, at any
// time, with any random numbers, in any thread; time and chance keep to their bounds;
// what is announced about a function (arity, type) is so.
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <new>
#include <thread>
#include "common/base/Base.h"
#include "common/datatypes/ValueOps.inl"
#include "common/base/MurmurHash2.h"
#include "common/function/FunctionManager.h"
#include "common/time/TimezoneInfo.h"
#include "common/time/WallClock.h"

DECLARE_string(timezone_name);

using namespace sim;
using namespace nebula;

namespace {
int pick(int n) { return choose(W, n); }
#include "valuekit.h"

const char* kNames[] = {"abs", "bit_and", "bit_or", "bit_xor", "floor", "ceil", "round", "sqrt", "cbrt", "hypot", "pow", "e", "exp", "exp2", "log", "log2", "log10", "pi", "radians", "sin", "asin", "cos", "acos", "tan", "atan",
    "sign", "rand", "rand32", "rand64", "now", "strcasecmp", "lower", "tolower", "upper", "toupper", "length", "trim", "ltrim", "rtrim", "left", "right", "replace", "reverse", "split", "tostring", "toboolean", "tofloat",
    "tointeger", "lpad", "rpad", "substr", "substring", "hash", "udf_is_in", "near", "cos_similarity", "size", "date", "time", "datetime", "timestamp", "range", "id", "tags", "labels", "properties", "type", "typeid", "src",
    "dst", "rank", "startnode", "endnode", "head", "last", "coalesce", "keys", "nodes", "tail", "relationships", "hassameedgeinpath", "hassamevertexinpath", "reversepath", "datasetrowcol"};
const int kCount = sizeof kNames / sizeof *kNames;
std::string spell(std::string s) { if (pick(3) == 0) for (auto& c : s) if (pick(2)) c = toupper(c); return s; }   // names are not case-sensitive
const int64_t SEC = 1000000000ll;
const int64_t kMax = std::numeric_limits<int64_t>::max();

struct Call { std::string name; std::vector<Value> args; bool pure; std::string want; std::vector<std::string> keys; std::string text; FunctionManager::Function f; };
std::vector<FunctionManager::ArgType> refs(const std::vector<Value>& a) { std::vector<FunctionManager::ArgType> r; for (auto& x : a) r.emplace_back(x); return r; }

DataSet dataSetV() {
    DataSet d; int c = pick(4), r = pick(4); for (int i = 0; i < c; i++) d.colNames.push_back(kProps[i]);
    for (int i = 0; i < r; i++) { nebula::Row w; for (int j = 0; j < c; j++) w.values.push_back(leaf(ANY, 2)); d.rows.push_back(std::move(w)); }
    return d;
}
// Arguments of the kinds the function takes, mostly; sizes stay within what a machine has.
std::vector<Value> argsFor(const std::string& n) {
    auto in = [&](std::initializer_list<const char*> l) { for (auto* x : l) if (n == x) return true; return false; };
    auto small = [] { return Value((int64_t)pick(12) - 2); };
    std::vector<int> k;
    if (in({"e", "pi", "rand", "now"})) return {};
    if (n == "range") {
        int64_t base = pick(4) == 0 ? (pick(2) ? kMax - 3 : std::numeric_limits<int64_t>::min() + 3) : pick(5) - 2, len = pick(4);
        std::vector<Value> a{Value(base), Value(base > 0 || !pick(2) ? base + (base > kMax - len ? 0 : len) : base - (base < -kMax + len ? 0 : len))};
        if (pick(2)) { const int64_t st[] = {1, -1, 2, 0, 5, kMax, -kMax, 3}; a.emplace_back(st[pick(8)]); }
        if (pick(10) == 0) a[pick(a.size())] = pick(2) ? Value("1") : pick(2) ? Value(1.0) : Value(NullType::__NULL__);
        return a;
    }
    if (in({"lpad", "rpad"})) { std::vector<Value> a{leaf(STR), small(), leaf(STR)}; if (pick(8) == 0) a[2 * pick(2)] = leaf(ANY); return a; }
    if (in({"rand32", "rand64"})) {
        static const int64_t ed[] = {0, 1, 2, -1, 2147483647, 2147483648LL, 4000000000LL, 4294967295LL, 4294967296LL, kMax, 7, 100};
        std::vector<Value> a; int c = pick(3); for (int i = 0; i < c; i++) a.emplace_back(ed[pick(12)]); if (c && pick(12) == 0) a[0] = leaf(ANY); return a;
    }
    if (in({"bit_and", "bit_or", "bit_xor"})) k = {INT, INT};
    else if (in({"hypot", "pow"})) k = {NUM, NUM};
    else if (in({"abs", "floor", "ceil", "round", "sqrt", "cbrt", "exp", "exp2", "log", "log2", "log10", "radians", "sin", "asin", "cos", "acos", "tan", "atan", "sign"})) k = {NUM};
    else if (in({"strcasecmp", "split"})) k = {STR, STR};
    else if (in({"lower", "tolower", "upper", "toupper", "trim", "ltrim", "rtrim"})) k = {STR};
    else if (in({"toboolean", "tofloat", "tointeger"})) k = {pick(2) ? STR : pick(2) ? NUM : BOOL};
    else if (in({"tostring", "hash", "size"})) { if (pick(8) == 0) return {Value(dataSetV())}; k = {ANY}; }
    else if (n == "replace") k = {STR, STR, STR};
    else if (in({"left", "right"})) return {leaf(STR), pick(8) ? small() : leaf(ANY)};
    else if (in({"substr", "substring"})) { std::vector<Value> a{leaf(STR), small()}; if (pick(2)) a.push_back(pick(4) ? small() : leaf(INT)); if (pick(8) == 0) a[1] = leaf(INT); return a; }
    else if (n == "length") k = {pick(2) ? STR : PATH};
    else if (n == "reverse") k = {pick(2) ? STR : LIST};
    else if (in({"head", "last", "tail"})) k = {LIST};
    else if (n == "coalesce") { if (pick(4)) { List l; int c = pick(4); for (int i = 0; i < c; i++) l.values.push_back(leaf(ANY, 1)); return {Value(l)}; } k = {LIST}; }
    else if (n == "udf_is_in") { k = {ANY}; int c = 1 + pick(3); for (int i = 0; i < c; i++) k.push_back(ANY); }
    else if (n == "near") k = {ANY, ANY};
    else if (n == "cos_similarity") { int c = 2 * (1 + pick(3)); for (int i = 0; i < c; i++) k.push_back(NUM); }
    else if (in({"date", "time", "datetime", "timestamp"})) { if (pick(3) == 0) return {}; if (n == "timestamp" && pick(2)) k = {INT}; else k = {pick(2) ? STR : MAP}; }
    else if (in({"id", "tags", "labels"})) k = {VERTEX};
    else if (in({"type", "typeid", "src", "dst", "rank"})) k = {EDGE};
    else if (in({"properties", "keys"})) k = {pick(3) ? (pick(2) ? VERTEX : EDGE) : MAP};
    else if (in({"startnode", "endnode"})) k = {pick(2) ? EDGE : PATH};
    else if (in({"nodes", "relationships", "hassameedgeinpath", "hassamevertexinpath", "reversepath"})) k = {PATH};
    else if (n == "datasetrowcol") return {pick(8) ? Value(dataSetV()) : leaf(ANY), pick(8) ? small() : leaf(INT), pick(3) ? small() : leaf(STR)};
    else harnessError(n.c_str());
    std::vector<Value> a; for (int x : k) a.push_back(leaf(pick(12) ? x : (int)ANY));
    return a;
}

// The hash of the C++ library of these platforms, written again.
uint64_t murmur(const std::string& s) {
    const uint64_t m = 0xc6a4a7935bd1e995ull; uint64_t h = 0xc70f6907ull ^ (s.size() * m); size_t i = 0;
    for (; i + 8 <= s.size(); i += 8) { uint64_t k = 0; for (int j = 7; j >= 0; j--) k = k << 8 | (unsigned char)s[i + j]; k *= m; k ^= k >> 47; k *= m; h ^= k; h *= m; }
    if (i < s.size()) { uint64_t k = 0; for (size_t j = s.size(); j-- > i;) k = k << 8 | (unsigned char)s[j]; h ^= k; h *= m; }
    h ^= h >> 47; h *= m; h ^= h >> 47; return h;
}

std::atomic<bool> gStrcasecmp{false};                       // announced as a string: a listed finding
std::string typeName(Value::Type t) { std::ostringstream o; o << t; return o.str(); }

// What holds for every answer.
void judge(const Call& c, const Value& v, int64_t lo, int64_t hi) {
    auto& n = c.name; auto& a = c.args;
    auto k = key(v);
    if (c.pure) SIM_CHECK(k == c.want, "%s is called pure and is %s after it was %s", c.text.c_str(), brief(k).c_str(), brief(c.want).c_str());
    for (size_t i = 0; i < c.args.size(); i++) SIM_CHECK(key(c.args[i]) == c.keys[i], "%s changed its argument %zu", c.text.c_str(), i);
    std::vector<Value::Type> ts; bool none = false; for (auto& a : c.args) { ts.push_back(a.type()); none = none || a.isNull() || a.empty(); }
    auto rt = FunctionManager::getReturnType(c.name, ts);
    if (n == "strcasecmp" && v.isInt() && rt.ok() && rt.value() == Value::Type::STRING) { gStrcasecmp = true; } else
    if (rt.ok() && !none && !v.isNull() && rt.value() != Value::Type::__EMPTY__) SIM_CHECK(v.type() == rt.value(), "%s was said to be a %s and is a %s", c.text.c_str(), typeName(rt.value()).c_str(), typeName(v.type()).c_str());
    auto in = [&](int64_t l, int64_t h) { SIM_CHECK(v.isInt() && v.getInt() >= l && v.getInt() <= h, "%s is %s, not from %lld to %lld", c.text.c_str(), k.c_str(), (long long)l, (long long)h); };

    bool ints = true; for (auto& x : a) ints = ints && x.isInt();
    if (n == "rand") SIM_CHECK(v.isFloat() && v.getFloat() >= 0 && v.getFloat() < 1, "rand() is %s", k.c_str());
    else if (n == "rand32" || n == "rand64") {
        bool w = n == "rand32"; int64_t top = w ? 4294967295LL : kMax;
        if (!ints) SIM_CHECK(v.isNull(), "%s is %s", c.text.c_str(), k.c_str());
        else if (a.empty()) in(w ? -2147483648LL : std::numeric_limits<int64_t>::min(), w ? 2147483647LL : kMax);
        else if (a.size() == 1) { int64_t m = a[0].getInt(); if (m < 0 || m > top) SIM_CHECK(v.isNull(), "%s is %s", c.text.c_str(), k.c_str()); else in(0, m ? m - 1 : 0); }
        else { int64_t l = a[0].getInt(), m = a[1].getInt(); if (l < 0 || m < 0 || l > top || m > top || l >= m) SIM_CHECK(v.isNull(), "%s is %s", c.text.c_str(), k.c_str()); else in(l, m - 1); }
    } else if (n == "now" || (n == "timestamp" && a.empty())) in(lo / SEC - 2 - 3 * stolenNs() / SEC, hi / SEC + 2 + 3 * stolenNs() / SEC);
    else if (a.empty() && (n == "date" || n == "time" || n == "datetime")) {
        int64_t tol = 10000000 + 3 * stolenNs(), l = lo - tol, h = hi + tol, s = 0;
        auto days = [](int64_t y, int m, int d) { y -= m <= 2; int64_t e = (y >= 0 ? y : y - 399) / 400; unsigned o = y - e * 400, q = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return e * 146097 + (int64_t)(o * 365 + o / 4 - o / 100 + q) - 719468; };
        if (n == "date") { SIM_CHECK(v.isDate(), "date() is %s", k.c_str()); s = days(v.getDate().year, v.getDate().month, v.getDate().day); SIM_CHECK(s >= l / SEC / 86400 && s <= h / SEC / 86400, "date() is %s in second %lld", k.c_str(), (long long)(lo / SEC)); }
        else if (n == "datetime") { SIM_CHECK(v.isDateTime(), "datetime() is %s", k.c_str()); auto& t = v.getDateTime(); s = (days(t.year, t.month, t.day) * 86400 + t.hour * 3600 + t.minute * 60 + t.sec) * SEC + t.microsec * 1000LL; SIM_CHECK(s >= l - 1000000 && s <= h, "datetime() is %s in second %lld", k.c_str(), (long long)(lo / SEC)); }
        else { SIM_CHECK(v.isTime(), "time() is %s", k.c_str()); auto& t = v.getTime(); s = (t.hour * 3600 + t.minute * 60 + t.sec) * SEC + t.microsec * 1000LL; int64_t r = ((s - l + 1000000) % (86400 * SEC) + 86400 * SEC) % (86400 * SEC); SIM_CHECK(r <= h - l + 1000000, "time() is %s in second %lld", k.c_str(), (long long)(lo / SEC)); }
    } else if (n == "hash" && a.size() == 1 && a[0].isStr()) SIM_CHECK(v.isInt() && (uint64_t)v.getInt() == murmur(a[0].getStr()), "%s is %s on this node", c.text.c_str(), k.c_str());
    else if (n == "hash" && a.size() == 1 && a[0].isInt()) SIM_CHECK(v.isInt() && v.getInt() == a[0].getInt(), "%s is %s on this node", c.text.c_str(), k.c_str());
    else if (n == "range" && ints && a.size() >= 2 && !(a.size() == 3 && a[2].getInt() == 0)) {
        std::string w = "["; __int128 st = a.size() == 3 ? a[2].getInt() : 1; for (__int128 i = a[0].getInt(), e = a[1].getInt(); st > 0 ? i <= e : i >= e; i += st) w += std::to_string((int64_t)i) + ",";
        SIM_CHECK(k == w + "]", "%s is %s", c.text.c_str(), brief(k).c_str());
    }
}
}  // namespace

SIM_SCENARIO(functions) {
    setClockLimitNs(400 * 86400 * SEC);
    setTscHz(2400000000ull, 1000);
    setBulkRandom(1 + choose(W, 1000000));
    FLAGS_timezone_name = "UTC+08:00"; SIM_CHECK(time::Timezone::initializeGlobalTimezone().ok(), "no time zone");
    stepRealtime((int64_t)choose(W, 20000) * 86400 * SEC + choose(W, 86400) * SEC - realNs() % SEC);
    bool f = faultsOn(); setFaults(false); setSkips(false);
    time::WallClock::fastNowInMilliSec(); sleepNs(6 * SEC);
    setFaults(f); setSkips(f); setFaultRate("thread_stall", 0);
    gLongIds = pick(4) == 0;
    std::vector<Call> calls; int n = 3 + pick(6);
    int only = pick(3) ? -1 : (int)pick(kCount);             // all of them the same function, called at the same time
    for (int i = 0; i < n; i++) {
        Call c; c.name = kNames[only < 0 ? pick(kCount) : only]; c.args = argsFor(c.name);
        size_t ar = c.args.size();
        auto name = spell(c.name);
        SIM_CHECK(FunctionManager::find(name, ar).ok(), "the function %s does not take %zu arguments", name.c_str(), ar);
        auto g = FunctionManager::get(name, ar); auto p = FunctionManager::getIsPure(name, ar);
        SIM_CHECK(g.ok() && p.ok(), "the function %s with %zu arguments is there and cannot be had", name.c_str(), ar);
        c.f = g.value(); c.pure = p.value();
        for (auto& a : c.args) c.keys.push_back(key(a));
        c.text = c.name + "("; for (auto& a : c.keys) c.text += a + ","; c.text.back() == ',' ? (void)(c.text.back() = ')') : (void)(c.text += ")"); c.text = brief(c.text);
        c.want = key(c.f(refs(c.args)));
        for (size_t q = 0; q < 6; q++) SIM_CHECK(FunctionManager::find(c.name, q).ok() == FunctionManager::get(c.name, q).ok() && FunctionManager::get(c.name, q).ok() == FunctionManager::getIsPure(c.name, q).ok(), "%s with %zu arguments is there and is not", c.name.c_str(), q);
        SIM_CHECK(!FunctionManager::find(c.name + "_", ar).ok() && !FunctionManager::get("", ar).ok(), "a function that does not exist was found");
        calls.push_back(std::move(c));
    }
    for (auto& c : calls) note("%s", c.text.c_str());
    for (auto& c : calls) for (auto& a : c.args) if (a.isStr()) SIM_CHECK(MurmurHash2()(a.getStr()) == murmur(a.getStr()), "the hash of a string of %zu bytes is not that of other nodes", a.getStr().size());
    auto work = [&] {
        int steps = 5 + pick(10);
        for (int i = 0; i < steps; i++) {
            auto& c = calls[choose(S, calls.size())];
            if (fault("alloc_fail", 1, 8)) {
                memArm(true, 1 + choose(F, 4), 10); bool threw = false;
                try { c.f(refs(c.args)); } catch (const std::bad_alloc&) { threw = true; }
                memDisarm(); if (threw) count("failed");
            }
            int64_t lo = realNs(); Value v = c.f(refs(c.args)); int64_t hi = realNs();
            judge(c, v, lo, hi);
            count("answers");
            if (choose(S, only < 0 ? 3 : 20) == 0) { static const int64_t nap[] = {1000, 1000000, 700000000, SEC, 3 * SEC, 61 * SEC}; sleepNs(nap[choose(W, 6)] + choose(W, 1000) * 1000); }
        }
    };
    std::vector<std::thread> ts; int nt = only < 0 ? 1 + pick(3) : 2 + pick(2);
    for (int i = 0; i < nt; i++) ts.emplace_back(work);
    for (auto& t : ts) t.join();
    count("ok");
    if (gStrcasecmp) knownFinding("strcasecmp-type", "strcasecmp was said to be a STRING and is an INT");
}
