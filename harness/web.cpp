// The web service: every request is answered once and truthfully, whatever it
// contains, and the service can be started, refused, retried and destroyed at any time.
#include "sim.h"
#include "common/base/Base.h"
#include "common/stats/StatsManager.h"
#include "common/webservice/Router.h"
#include "common/webservice/WebService.h"
#include <proxygen/httpserver/HTTPServer.h>
#include <proxygen/httpserver/ResponseBuilder.h>
#include <folly/json.h>
#include <cmath>
#include <thread>

DEFINE_int32(sim_i32, 7, "a small number");
DEFINE_int64(sim_i64, -9, "a large number");
DEFINE_uint64(sim_u64, 3, "a number that is never negative");
DEFINE_bool(sim_bool, false, "yes or no");
DEFINE_double(sim_double, 0.5, "a fraction");
DEFINE_string(sim_string, "initial", "a word");
DEFINE_int32(sim_checked, 10, "a number from 0 to 100");
static bool validChecked(const char*, int32_t v) { return v >= 0 && v <= 100; }
DEFINE_validator(sim_checked, &validChecked);


namespace nebula { std::string gitInfoSha() { return "0123abcd"; } }

using namespace nebula;
using proxygen::HTTPMethod;
namespace {
using sim::choose; using sim::chance;
constexpr auto W = sim::W;
// ---- flags: regular registers
struct FlagSpec { const char* name; char type; };
const FlagSpec flags[] = {{"sim_i32", 'i'}, {"sim_i64", 'l'}, {"sim_u64", 'u'}, {"sim_bool", 'b'}, {"sim_double", 'd'}, {"sim_string", 's'}, {"sim_checked", 'c'}};
constexpr int NF = 7;
struct Write { std::string v; uint64_t from, to; bool sure; };            // sure: the answer said it was applied
struct Model {
    uint64_t clk = 0;
    std::vector<Write> writes[NF];
    uint64_t hitsStarted = 0, hitsDone = 0;
    stats::CounterId hits, lat;
    std::string prefix;
    bool ownStatus = false;
    int serving = 0;
};
int flagOf(const std::string& n) { for (int i = 0; i < NF; i++) if (n == flags[i].name) return i; return -1; }
struct NewValue { std::string json, text; bool ok; };                     // text: as gflags will give it back
NewValue newValue(Model* m, int f, int id) {
    using std::to_string;
    bool str = choose(W, 2);
    auto num = [&](std::string s) { return str ? "\"" + s + "\"" : s; };
    switch (choose(W, 12)) {
        case 1: return {"null", "", false};
        case 2: return {"{\"a\":1}", "", false};
        case 3: return {"[" + to_string(id) + "]", "", false};
        case 4: if (flags[f].type != 's') return {"\"x" + to_string(id) + "\"", "", false}; break;
        default: break;
    }
    switch (flags[f].type) {
        case 'i': if (choose(W, 6) == 1) return {num("99999999999"), "", false}; return {num(to_string(1000 + id)), to_string(1000 + id), true};
        case 'l': { auto v = (choose(W, 2) ? 1 : -1) * (5000000000LL + id); return {num(to_string(v)), to_string(v), true}; }
        case 'u': if (choose(W, 6) == 1) return {num("-5"), "", false};
                  if (choose(W, 4) == 1) { auto v = to_string(18446744073709551000ULL + id % 600); return {"\"" + v + "\"", v, true}; }
                  return {num(to_string(7000000000LL + id)), to_string(7000000000LL + id), true};
        case 'b': { bool v = choose(W, 2); std::string s = v ? "true" : "false"; return {num(s), s, true}; }
        case 'd': switch (choose(W, 6)) {
                      case 1: return {"\"nan\"", "nan", true};
                      case 2: return {"\"inf\"", "inf", true};
                      case 3: return {"\"-inf\"", "-inf", true};
                      default: return {num(to_string(id) + ".25"), to_string(id) + ".25", true};
                  }
        case 'c': { int v = (int)choose(W, 130) - 10; return {num(to_string(v)), to_string(v), v >= 0 && v <= 100}; }
        default: { static const char* odd[] = {"", "with space", "per%cent %s", "a=b", "[1]"}; auto s = choose(W, 4) == 1 ? odd[choose(W, 5)] : "w" + to_string(id); return {"\"" + s + "\"", s, true}; }
    }
    (void)m;
}
bool same(int f, const std::string& a, const std::string& b) {
    if (flags[f].type != 'd') return a == b;
    auto n = [](const std::string& s) { return strtod(s.c_str(), nullptr); };
    double x = n(a), y = n(b);
    return (std::isnan(x) && std::isnan(y)) || x == y;
}
void checkFlag(Model* m, int f, const std::string& got, uint64_t from, uint64_t to, const char* what) {
    sim::NoPreempt np;
    for (auto& w : m->writes[f]) {
        if (!same(f, w.v, got) || w.from > to) continue;
        bool over = false;
        for (auto& x : m->writes[f]) if (x.sure && x.to < from && w.to < x.from) over = true;
        if (!over) return;
    }
    std::string h;
    for (auto& w : m->writes[f]) h += " " + w.v + (w.sure ? "" : "?") + "[" + std::to_string(w.from) + "," + std::to_string(w.to) + "]";
    sim::violation("%s: flag %s reads %s in [%llu,%llu]; it was given%s", what, flags[f].name, got.c_str(), (unsigned long long)from, (unsigned long long)to, h.c_str());
}
std::string scalar(const folly::dynamic& d) { return d.isNull() ? "<null>" : d.asString(); }
std::string unquote(const std::string& s) { return s.size() >= 2 && s.front() == '"' && s.back() == '"' ? s.substr(1, s.size() - 2) : s; }

// ---- a handler of the embedding program
class Own : public proxygen::RequestHandler {
public:
    explicit Own(std::string a) : a_(std::move(a)) {}
    void onRequest(std::unique_ptr<proxygen::HTTPMessage>) noexcept override {}
    void onBody(std::unique_ptr<folly::IOBuf> b) noexcept override { a_ += "|" + b->toString(); }
    void onUpgrade(proxygen::UpgradeProtocol) noexcept override {}
    void onEOM() noexcept override { proxygen::ResponseBuilder(downstream_).status(200, "OK").body(a_).sendWithEOM(); }
    void requestComplete() noexcept override { delete this; }
    void onError(proxygen::ProxygenError) noexcept override { delete this; }
    std::string a_;
};
uint64_t tick(Model* m) { sim::NoPreempt np; return ++m->clk; }

simweb::Answer ask(Model* m, bool h2, const std::string& method, const std::string& path, std::vector<std::string> body, uint64_t* from, uint64_t* to, bool* lostInFlight) {
    simweb::Request r;
    r.method = method; r.url = (m->prefix.empty() ? "" : "/" + m->prefix) + path; r.chunks = std::move(body);
    if (choose(W, 4) == 1 && sim::fault("connection_lost", 1, 2)) r.errorAt = choose(sim::F, 4);
    int port = h2 ? FLAGS_ws_h2_port : FLAGS_ws_http_port;
    { sim::NoPreempt np; *from = ++m->clk; m->serving++; }
    auto a = simweb::request(port, r);
    { sim::NoPreempt np; *to = ++m->clk; m->serving--; }
    *lostInFlight = !a.answered;
    if (a.answered) sim::count("answers"); else sim::count("requests_lost");
    return a;
}
#define EXPECT_STATUS(c) SIM_CHECK(a.status == (c) && a.reason == reasonOf(c), "%s %s: answered %d %s instead of %d", method.c_str(), url.c_str(), a.status, a.reason.c_str(), c)
const char* reasonOf(int c) { return c == 200 ? "OK" : c == 400 ? "Bad Request" : c == 404 ? "Not Found" : "?"; }

void getFlags(Model* m, bool h2) {
    bool json = choose(W, 2), verbose = choose(W, 3) == 1, all = choose(W, 5) == 1;
    std::vector<std::string> names;
    std::string url = "/flags";
    if (choose(W, 6) == 1) url += "/";
    std::string q;
    if (!all) {
        int n = 1 + choose(W, 4);
        for (int i = 0; i < n; i++) { int f = choose(W, NF + 1); names.push_back(f == NF ? "no_such_flag" : flags[f].name); }
        q += "flags=" + folly::join(",", names);
    }
    if (json) q += std::string(q.empty() ? "" : "&") + "format=json";
    else if (choose(W, 4) == 1) q += std::string(q.empty() ? "" : "&") + "format=text";
    if (verbose) q += std::string(q.empty() ? "" : "&") + "verbose=true";
    if (!q.empty()) url += "?" + q;
    uint64_t s, e; bool lost;
    std::string method = "GET";
    auto a = ask(m, h2, method, url, choose(W, 8) == 1 ? std::vector<std::string>{"ignored"} : std::vector<std::string>{}, &s, &e, &lost);
    if (lost) return;
    EXPECT_STATUS(200);
    std::vector<std::pair<std::string, std::string>> got;                 // name, value
    if (json) {
        folly::dynamic d;
        try { d = folly::parseJson(a.body); } catch (const std::exception& x) { sim::violation("GET %s: the answer is no JSON (%s): %s", url.c_str(), x.what(), a.body.substr(0, 300).c_str()); }
        for (auto& x : d["flags"]) {
            int f = flagOf(x["name"].asString());
            got.emplace_back(x["name"].asString(), scalar(x["value"]));
            if (verbose && f >= 0) SIM_CHECK(x.count("description") && x.count("default") && x.count("type") && x.count("file") && x.count("is_default"), "GET %s: %s lacks details: %s", url.c_str(), flags[f].name, a.body.substr(0, 300).c_str());
        }
    } else {
        std::vector<std::string> ls;
        folly::split("\n", a.body, ls);
        for (size_t i = 0; i < ls.size(); i++) {
            auto& l = ls[i];
            if (!verbose || l.compare(0, 2, "--")) {
                auto p = l.find('=');
                if (p == std::string::npos || l[0] == ' ') continue;
                got.emplace_back(l.substr(0, p), unquote(l.substr(p + 1)));
            } else {
                auto p = l.find(':');
                std::string v = "?";
                if (i + 1 < ls.size()) {
                    auto c = ls[i + 1].find(", current: ");
                    if (c != std::string::npos) { v = ls[i + 1].substr(c + 11); if (v.size() > 9 && v.substr(v.size() - 9) == "(default)") v.resize(v.size() - 9); v = unquote(v); }
                }
                if (v == "?" && flagOf(l.substr(2, p - 2)) >= 0) sim::violation("GET %s: no value for %s", url.c_str(), l.c_str());
                got.emplace_back(l.substr(2, p - 2), v);
            }
        }
    }
    if (all) {
        int seen = 0;
        for (auto& g : got) if (flagOf(g.first) >= 0) seen++;
        SIM_CHECK(seen == NF, "GET %s lists %d of the %d flags", url.c_str(), seen, NF);
    } else {
        SIM_CHECK(got.size() == names.size(), "GET %s answers %zu flags for %zu: %s", url.c_str(), got.size(), names.size(), a.body.c_str());
        for (size_t i = 0; i < names.size(); i++) SIM_CHECK(got[i].first == names[i], "GET %s answers %s where %s was asked for", url.c_str(), got[i].first.c_str(), names[i].c_str());
    }
    for (auto& g : got) {
        int f = flagOf(g.first);
        if (f >= 0) checkFlag(m, f, g.second, s, e, ("GET " + url).c_str());
        else if (g.first == "no_such_flag") SIM_CHECK(g.second == "<null>" || g.second == "nullptr" || g.second == "?", "GET %s: an unknown flag has the value %s", url.c_str(), g.second.c_str());
    }
}
void putFlags(Model* m, bool h2) {
    static const char* bad[] = {"", "{", "not json", "[1,2]", "[]", "{}", "17", "2.5", "\"word\"", "null", "true", "{\"sim_i32\":}", "{\"sim_i32\" 5}"};
    std::string method = "PUT", url = "/flags", body;
    bool bodyOk = true;
    std::vector<std::pair<int, std::string>> good;
    std::set<std::string> failing;
    uint64_t s = tick(m), e;
    if (choose(W, 5) == 1) { body = bad[choose(W, 13)]; bodyOk = false; }
    else {
        int n = 1 + choose(W, 3);
        std::vector<bool> used(NF);
        body = "{";
        for (int i = 0; i < n; i++) {
            int f = choose(W, NF + 1), id;
            { sim::NoPreempt np; id = ++m->clk; }
            if (f == NF) { auto nm = "unknown" + std::to_string(i); body += (body.size() > 1 ? ", \"" : "\"") + nm + "\": " + std::to_string(id); failing.insert(nm); continue; }
            if (used[f]) continue;
            used[f] = true;
            auto v = newValue(m, f, id);
            body += (body.size() > 1 ? ", \"" : "\"") + std::string(flags[f].name) + "\": " + v.json;
            if (v.ok) good.emplace_back(f, v.text); else failing.insert(flags[f].name);
        }
        body += "}";
    }
    std::vector<size_t> at;
    { sim::NoPreempt np; for (auto& g : good) { at.push_back(m->writes[g.first].size()); m->writes[g.first].push_back({g.second, s, UINT64_MAX, false}); } }
    std::vector<std::string> chunks;
    for (size_t p = 0; p < body.size();) { size_t n = choose(W, 3) == 1 ? 1 + choose(W, body.size() - p) : body.size() - p; chunks.push_back(body.substr(p, n)); p += n; }
    if (body.empty() && choose(W, 2)) chunks.push_back("");
    bool lost; uint64_t s2;
    auto a = ask(m, h2, method, url, chunks, &s2, &e, &lost);
    if (lost) return;
    if (!bodyOk) { SIM_CHECK(a.status == 400 && a.reason == "Bad Request", "PUT /flags with %s is answered %d %s", body.c_str(), a.status, a.reason.c_str()); return; }
    SIM_CHECK(a.status == 200 && a.reason == "OK", "PUT /flags with %s is answered %d %s", body.c_str(), a.status, a.reason.c_str());
    folly::dynamic d;
    try { d = folly::parseJson(a.body); } catch (const std::exception& x) { sim::violation("PUT /flags: the answer is no JSON: %s", a.body.c_str()); }
    std::set<std::string> told;
    if (d.count("failedOptions")) for (auto& x : d["failedOptions"]) told.insert(x.asString());
    else SIM_CHECK(d.count("errCode") && d["errCode"].asInt() == 0, "PUT /flags with %s answers %s", body.c_str(), a.body.c_str());
    if (told != failing) {
        std::string t, x;
        for (auto& k : told) t += " " + k;
        for (auto& k : failing) x += " " + k;
        sim::violation("PUT /flags with %s: failed options are%s, expected%s", body.c_str(), t.c_str(), x.c_str());
    }
    sim::NoPreempt np;
    for (size_t i = 0; i < good.size(); i++) { auto& w = m->writes[good[i].first][at[i]]; w.to = e; w.sure = true; }
}
void getStats(Model* m, bool h2) {
    struct Q { const char* name; int kind; };                             // 0 count, 1 error, 2 whatever
    static const Q qs[] = {{"sim_hits.count.3600", 0}, {"sim_hits.sum.3600", 0}, {"nosuch.sum.60", 1}, {"bad", 1}, {"sim_hits.count.7", 1}, {"sim_hits.most.60", 1}, {"sim_hits.p99.60", 1}, {"sim_lat.p99.60", 2}, {"sim_lat.avg.60", 2}, {"sim_hits.px.60", 1}, {"a.b.c.d", 1}, {"sim_lat.p-5.60", 1}, {"sim_lat.p9e9.60", 1}, {"sim_lat.p.60", 1}, {"%s%n.sum.60", 1}, {"sim_lat.pnan.60", 1}, {"sim_lat.p100.60", 2}, {"sim_lat.p12345678.60", 1}};
    bool json = choose(W, 2), all = choose(W, 4) == 1;
    std::string method = "GET", url = "/stats", q;
    std::vector<int> names;
    if (!all) { int n = 1 + choose(W, 4); for (int i = 0; i < n; i++) { names.push_back(choose(W, 18)); q += (i ? "," : "stats=") + std::string(qs[names.back()].name); } }
    if (json) q += std::string(q.empty() ? "" : "&") + "format=json";
    if (!q.empty()) url += "?" + q;
    uint64_t s, e, done, started; bool lost;
    { sim::NoPreempt np; done = m->hitsDone; }
    auto a = ask(m, h2, method, url, {}, &s, &e, &lost);
    if (lost) return;
    { sim::NoPreempt np; started = m->hitsStarted; }
    EXPECT_STATUS(200);
    std::vector<std::pair<std::string, std::string>> got;
    if (json) {
        folly::dynamic d;
        try { d = folly::parseJson(a.body); } catch (const std::exception& x) { sim::violation("GET %s: the answer is no JSON: %s", url.c_str(), a.body.c_str()); }
        for (auto& x : d) for (auto& kv : x.items()) got.emplace_back(kv.first.asString(), scalar(kv.second));
    } else {
        std::vector<std::string> ls;
        folly::split("\n", a.body, ls, true);
        for (auto& l : ls) { auto p = l.find('='); SIM_CHECK(p != std::string::npos, "GET %s: a line without a value: %s", url.c_str(), l.c_str()); got.emplace_back(l.substr(0, p), l.substr(p + 1)); }
    }
    auto number = [](const std::string& v, int64_t* n) { char* end; *n = strtoll(v.c_str(), &end, 10); return !v.empty() && !*end; };
    auto judge = [&](const std::string& name, const std::string& v, int kind) {
        int64_t n;
        bool isNum = number(v, &n);
        if (kind == 1) SIM_CHECK(!isNum, "GET %s: %s has the value %s", url.c_str(), name.c_str(), v.c_str());
        else SIM_CHECK(isNum, "GET %s: %s is answered with %s", url.c_str(), name.c_str(), v.c_str());
        if (kind == 0) SIM_CHECK(n >= (int64_t)done && n <= (int64_t)started, "GET %s: %s is %lld, but %llu were counted before and %llu after", url.c_str(), name.c_str(), (long long)n, (unsigned long long)done, (unsigned long long)started);
    };
    if (all) {
        std::map<std::string, std::string> mp(got.begin(), got.end());
        for (auto* w : {"5", "60", "600", "3600"}) {
            for (auto* n : {"sim_hits.count.", "sim_hits.sum.", "sim_lat.p99.", "sim_lat.avg."}) SIM_CHECK(mp.count(std::string(n) + w), "GET /stats does not list %s%s", n, w);
        }
        judge("sim_hits.count.3600", mp["sim_hits.count.3600"], 0);
        return;
    }
    SIM_CHECK(got.size() == names.size(), "GET %s: %zu answers for %zu statistics: %s", url.c_str(), got.size(), names.size(), a.body.c_str());
    for (size_t i = 0; i < names.size(); i++) {
        auto& x = qs[names[i]];
        SIM_CHECK(got[i].first == x.name, "GET %s answers %s where %s was asked for", url.c_str(), got[i].first.c_str(), x.name);
        judge(x.name, got[i].second, x.kind);
    }
}
void others(Model* m, bool h2) {
    std::string method, url;
    std::vector<std::string> body;
    int kind = choose(W, 5), want = 404;
    std::string text;
    bool json = false;
    switch (kind) {
        case 0: method = "GET"; url = choose(W, 2) ? "/status" : (m->prefix.empty() && choose(W, 2) ? "" : "/"); want = 200; json = true;
                if (m->ownStatus && url == "/status") { json = false; text = "own status"; } break;
        case 1: { auto id = "id" + std::to_string(choose(W, 100)), k = "kind" + std::to_string(choose(W, 10)); method = "GET"; url = "/item/" + id + "/of/" + k; want = 200; text = "id=" + id + " kind=" + k; if (choose(W, 4) == 1) url += "/"; break; }
        case 2: method = "POST"; url = "/echo"; want = 200; text = "echo"; { int n = choose(W, 4); for (int i = 0; i < n; i++) { body.push_back("part" + std::to_string(choose(W, 100))); text += "|" + body.back(); } } break;
        case 3: { static const char* u[] = {"/nosuch", "/flags/x", "/statu", "/statuss", "/item/5", "/item//of/x", "/echo", "/x/"}; method = "GET"; url = u[choose(W, 8)]; break; }
        default: { static const char* ms[] = {"DELETE", "POST", "HEAD", "PATCH", "OPTIONS"}; method = h2 && choose(W, 2) ? "PROPFIND" : ms[choose(W, 5)]; static const char* u[] = {"/flags", "/status", "/stats", "/"}; url = u[choose(W, 4)]; break; }
    }
    uint64_t s, e; bool lost;
    auto a = ask(m, h2, method, url, body, &s, &e, &lost);
    if (lost) return;
    EXPECT_STATUS(want);
    if (want != 200) return;
    if (json) {
        folly::dynamic d;
        try { d = folly::parseJson(a.body); } catch (const std::exception& x) { sim::violation("GET %s: the answer is no JSON: %s", url.c_str(), a.body.c_str()); }
        SIM_CHECK(d["status"].asString() == "running" && d["git_info_sha"].asString() == "0123abcd", "GET %s answers %s", url.c_str(), a.body.c_str());
    } else {
        SIM_CHECK(a.body == text, "%s %s answers '%s' instead of '%s'", method.c_str(), url.c_str(), a.body.c_str(), text.c_str());
    }
}
}  // namespace

SIM_SCENARIO(web_service) {
    sim::setFaultRate("spurious_wakeup", 1500);
    auto* m = new Model();
    for (int i = 0; i < NF; i++) { std::string v; gflags::GetCommandLineOption(flags[i].name, &v); m->writes[i].push_back({v, 0, 0, true}); }
    m->hits = stats::StatsManager::registerStats("sim_hits", "sum, count");
    m->lat = stats::StatsManager::registerHisto("sim_lat", 10, 0, 100, "avg,p99");
    static const char* prefixes[] = {"", "", "svc"};
    m->prefix = prefixes[choose(W, 3)];
    int lives = 1 + choose(W, 2);
    for (int life = 0; life < lives; life++) {
        FLAGS_ws_threads = 1 + choose(W, 3);
        FLAGS_ws_ip = "10.0.0.1";
        auto port = [&](int p) { return choose(W, 2) ? 0 : p; };
        FLAGS_ws_http_port = port(11000);
        FLAGS_ws_h2_port = port(11002);
        simweb::net().taken.clear();
        if (sim::faultsOn()) for (int p : {11000, 11002, 40000, 40001}) if (choose(sim::F, 5) == 1) simweb::net().taken.insert(p);
        auto svc = std::make_unique<WebService>(m->prefix);
        m->ownStatus = choose(W, 4) == 1;
        svc->router().get("/item/:id/of/:kind").handler([](web::PathParams&& p) { return new Own("id=" + p["id"] + " kind=" + p["kind"]); });
        svc->router().post("/echo").handler([](web::PathParams&& p) { SIM_CHECK(p.empty(), "parameters without a pattern"); return new Own("echo"); });
        if (m->ownStatus) svc->router().get("/status").handler([](web::PathParams&&) { return new Own("own status"); });
        bool up = false;
        int tries = choose(W, 5) == 4 ? 0 : 1 + choose(W, 3);
        for (int t = 0; t < tries; t++) {
            int hp = FLAGS_ws_http_port, h2p = FLAGS_ws_h2_port;
            auto st = svc->start();
            auto& n = simweb::net();
            std::lock_guard<std::mutex> g(n.m);
            bool listening = n.ports.count(FLAGS_ws_http_port) && n.ports.count(FLAGS_ws_h2_port) && FLAGS_ws_http_port && FLAGS_ws_h2_port;
            sim::note("start -> %s, listening %d", st.toString().c_str(), listening);
            SIM_CHECK(st.ok() == listening, "start() says %s, and the ports are %sopen", st.toString().c_str(), listening ? "" : "not ");
            SIM_CHECK(svc->started() == listening, "started() is %d, and the ports are %sopen", svc->started(), listening ? "" : "not ");
            if (hp) SIM_CHECK(FLAGS_ws_http_port == hp, "the HTTP port changed from %d to %d", hp, FLAGS_ws_http_port);
            if (h2p) SIM_CHECK(FLAGS_ws_h2_port == h2p, "the HTTP/2 port changed from %d to %d", h2p, FLAGS_ws_h2_port);
            if (listening) { SIM_CHECK(n.ports.size() == 2, "%zu ports are open", n.ports.size()); SIM_CHECK(!n.h2[FLAGS_ws_http_port] && n.h2[FLAGS_ws_h2_port], "the ports are mixed up"); up = true; sim::count("starts"); }
            else { SIM_CHECK(n.ports.empty(), "the start failed, yet %zu ports are open", n.ports.size()); sim::count("failed_starts"); if (choose(W, 2)) n.taken.clear(); }
        }
        int nc = up ? 1 + choose(W, 3) : 0, each = 1 + choose(W, 5), na = choose(W, 3);
        std::vector<std::thread> ts;
        for (int c = 0; c < nc; c++) ts.emplace_back([=] {
            for (int k = 0; k < each; k++) {
                bool h2 = choose(W, 2);
                switch (choose(W, 4)) {
                    case 0: getFlags(m, h2); break;
                    case 1: putFlags(m, h2); break;
                    case 2: getStats(m, h2); break;
                    default: others(m, h2); break;
                }
                if (choose(W, 3) == 1) sim::sleepNs(choose(W, 4) * 300000000LL);
            }
        });
        for (int a = 0; a < na; a++) ts.emplace_back([=] {
            int n = 1 + choose(W, 6);
            for (int k = 0; k < n; k++) {
                { sim::NoPreempt np; m->hitsStarted++; }
                stats::StatsManager::addValue(m->hits);
                { sim::NoPreempt np; m->hitsDone++; }
                stats::StatsManager::addValue(m->lat, choose(W, 120) - 10);
                if (choose(W, 3) == 1) sim::sleepNs(choose(W, 4) * 200000000LL);
            }
        });
        bool wait = choose(W, 2);
        if (wait) { for (auto& t : ts) t.join(); ts.clear(); }
        else if (choose(W, 2)) sim::sleepNs(choose(W, 1000) * 100000LL);
        svc.reset();
        {
            auto& n = simweb::net();
            std::lock_guard<std::mutex> g(n.m);
            SIM_CHECK(n.ports.empty(), "the service is gone and %zu ports are open", n.ports.size());
        }
        { sim::NoPreempt np; SIM_CHECK(simweb::handlers().empty(), "the service is gone and %zu handlers are left", simweb::handlers().size()); }
        for (auto& t : ts) t.join();
        SIM_CHECK(m->serving == 0, "%d requests without an end", m->serving);
    }
}
