// Commands run for a request: curl and hdfs against a simulated shell, and
// metad's HTTP service as the meta client asks it to download and ingest.
#include "sim.h"
#include "proc.h"
#include "simnet.h"
#include "common/base/Base.h"
#include <folly/executors/IOThreadPoolExecutor.h>
#include "common/clients/meta/MetaClient.h"
#include "common/hdfs/HdfsCommandHelper.h"
#include "common/http/HttpClient.h"
#include "stubs_meta.h"
#include "shell.h"

using namespace sim;
using folly::dynamic;
using nebula::HostAddr;
using nebula::StatusOr;
using nebula::http::HttpClient;
using nebula::meta::MetaClient;
namespace mc = nebula::meta::cpp2;
DECLARE_int32(ws_meta_http_port);
DECLARE_int32(meta_client_retry_times);
DECLARE_int32(meta_client_retry_interval_secs);
DECLARE_int32(meta_client_timeout_ms);

namespace {
struct Ask {
    std::vector<std::string> words;                      // of the command, when it is a fixed one
    std::string url, method;
    std::vector<std::string> headers;
    dynamic data = nullptr; bool hasData = false, curl = false;
    int asked = 0;
    std::string out; int status = 0;
};
std::map<int, Ask*>* asks;
std::string bits(const char* const* from, int n, int most) {
    std::string s;
    for (int i = choose(sim::W, most + 1); i > 0; --i) s += from[choose(sim::W, n)];
    return s;
}
std::string output() {                                   // sizes around what is read at a time
    size_t n = choose(sim::W, 3) == 1 ? 1024 * (1 + choose(sim::W, 3)) - 1 + choose(sim::W, 3) : choose(sim::W, 4) == 1 ? choose(sim::W, 9000) : choose(sim::W, 40);
    std::string s(n, 'o');
    for (size_t i = 0; i < n; i += 1 + choose(sim::W, 200)) s[i] = (char)choose(sim::W, 256);
    return s;
}
dynamic value(int deep) {
    static const char* b[] = {"a", "Z9", "'", "\"", "\\", "$", "`", "\n", "\t", "$(x)", "%", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", " ", "*", ";", "@", "\x01", "{", "&#", "'\\''", "!"};
    switch (choose(sim::W, deep ? 6 : 3)) {
    case 0: return bits(b, 23, 9);
    case 1: return (int64_t)choose(sim::W, 1000) - 500;
    case 2: return bool(choose(sim::W, 2));
    case 3: { dynamic d = dynamic::array(); for (int n = choose(sim::W, 4); n > 0; --n) d.push_back(value(deep - 1)); return d; }
    default: { dynamic d = dynamic::object(); for (int n = choose(sim::W, 4); n > 0; --n) d.insert(bits(b, 23, 4), value(deep - 1)); return d; }
    }
}
bool run(const std::string& cmd, std::string* out, int* status) {
    NoPreempt np;
    auto i = asks->find(tid());
    SIM_CHECK(i != asks->end() && i->second, "a command nobody asked for: %s", cmd.c_str());
    Ask& a = *i->second;
    SIM_CHECK(a.asked++ == 0, "one request ran a second command: %s", cmd.c_str());
    Shell sh;
    SIM_CHECK(sh.read(cmd), "the shell would find %s in: %s", sh.trouble.c_str(), cmd.c_str());
    if (a.curl) {
        Curl c;
        SIM_CHECK(c.read(sh.words), "%s: %s", c.trouble.c_str(), cmd.c_str());
        SIM_CHECK(c.url == a.url, "a request for %s went to %s", a.url.c_str(), c.url.c_str());
        SIM_CHECK(c.method == a.method, "a %s became a %s", a.method.c_str(), c.method.c_str());
        SIM_CHECK(c.hasData == a.hasData, "a body was %s", c.hasData ? "made up" : "left out");
        if (a.hasData) {
            SIM_CHECK(c.hasHeader("application/json"), "the request does not say what it sends");
            dynamic d = nullptr;
            try { d = folly::parseJson(c.data); } catch (std::exception& e) { violation("a body that is no JSON: %s", c.data.c_str()); }
            SIM_CHECK(d == a.data, "the body %s became %s", folly::toJson(a.data).c_str(), c.data.c_str());
        } else SIM_CHECK(c.headers == a.headers, "other headers than the ones given");
    } else {
        SIM_CHECK(sh.words.size() == a.words.size(), "a command of %zu words became one of %zu: %s", a.words.size(), sh.words.size(), cmd.c_str());
        for (size_t k = 0; k < a.words.size(); ++k) SIM_CHECK(sh.words[k] == a.words[k], "'%s' was given as '%s'", a.words[k].c_str(), sh.words[k].c_str());
    }
    a.out = output(); a.status = 0;
    if (fault("command_fails", 1, 6)) { a.status = choose(F, 3) ? curlTrouble(choose(F, 9)) : (1 + choose(F, 255)) << 8; if (choose(F, 2)) a.out.resize(choose(F, (uint32_t)a.out.size() + 1)); }
    *out = a.out; *status = a.status;
    return true;
}
uint64_t troubles() { return faultCount("popen_fail") + faultCount("pclose_fail") + faultCount("read_fail"); }
}  // namespace

SIM_SCENARIO(commands) {
    asks = new std::map<int, Ask*>();
    onPopen(run);
    for (auto* k : {"popen_fail", "pclose_fail", "read_fail", "short_read"}) if (choose(sim::W, 2)) setFaultRate(k, 6000);
    int nt = 1 + choose(sim::W, 3), each = 2 + choose(sim::W, 8);
    auto body = [&] {
        static const char* u[] = {"a", "b1", "/", "?", "&", "=", "%20", "$", "$HOME", "`", "\\", "\"", "'", ";", "(", ")", "|", "<", ">", "*", "!", "~", "#", "$(x)", "\xc3\xa9", ",", "-", "\\\\", "$$"};
        static const char* p[] = {"a", "b1", "/", " ", "'", "\"", "$", "$HOME", "`", "\\", ";", "&", "|", "(", ")", "<", ">", "*", "?", "[x]", "{a}", "~", "#", "!", "\n", "\t", "$(x)", "\xe4\xb8\xad", "-", "'\\''", "%41"};
        for (int k = 0; k < each; ++k) {
            Ask a;
            int what = choose(sim::W, 9);
            a.curl = what < 7;
            a.url = "http://10.0.0." + std::to_string(choose(sim::W, 9)) + ":" + std::to_string(1 + choose(sim::W, 65535)) + "/" + bits(u, 29, 7);
            a.method = what == 0 ? "GET" : what < 4 ? "POST" : "PUT";
            std::string opts;
            std::unordered_map<std::string, std::string> map;
            if (a.curl) {
                if (what == 0) opts = choose(sim::W, 2) ? "-G" : "";
                else if (what == 1 || what == 4) { if (choose(sim::W, 2)) { opts = "-H \"X-A: b c\" -H 'q: $'"; a.headers = {"X-A: b c", "q: $"}; } }
                else if (what == 2 || what == 5) {
                    a.data = dynamic::object();
                    for (int n = choose(sim::W, 4); n > 0; --n) { dynamic x = value(0), y = value(0); if (x.isString() && y.isString()) { map[x.getString()] = y.getString(); a.data[x.getString()] = y; } }
                    a.hasData = !map.empty();
                } else { do a.data = value(3); while (!a.data.isObject() && !a.data.isArray()); a.hasData = !a.data.empty(); }
            }
            std::string host = "hd" + std::to_string(choose(sim::W, 3)), path = "/" + bits(p, 31, 8), local = "/" + bits(p, 31, 8);
            int port = choose(sim::W, 65536);
            std::string hdfs = "hdfs://" + host + ":" + std::to_string(port) + path;
            if (what == 7) a.words = {"hdfs", "dfs", "-ls", hdfs};
            if (what == 8) a.words = {"hdfs", "dfs", "-copyToLocal", hdfs, local};
            uint64_t f0;
            { NoPreempt np; (*asks)[tid()] = &a; f0 = troubles(); }
            StatusOr<std::string> r = std::string();
            nebula::hdfs::HdfsCommandHelper h;
            switch (what) {
            case 0: r = opts.empty() ? HttpClient::get(a.url) : HttpClient::get(a.url, opts); break;
            case 1: r = HttpClient::post(a.url, opts); break;
            case 2: r = HttpClient::post(a.url, map); break;
            case 3: r = HttpClient::post(a.url, a.data); break;
            case 4: r = HttpClient::put(a.url, opts); break;
            case 5: r = HttpClient::put(a.url, map); break;
            case 6: r = HttpClient::put(a.url, a.data); break;
            case 7: r = h.ls(host, port, path); break;
            default: r = h.copyToLocal(host, port, path, local); break;
            }
            NoPreempt np;
            (*asks)[tid()] = nullptr;
            static const char* names[] = {"GET", "POST", "POST of a map", "POST of data", "PUT", "PUT of a map", "PUT of data", "hdfs ls", "hdfs copy"};
            if (r.ok()) {
                SIM_CHECK(a.asked == 1 && a.status == 0, "%s: reported as done though the command %s", names[what], a.asked ? "failed" : "was not run");
                SIM_CHECK(r.value() == a.out, "%s: %zu bytes came back as %zu%s", names[what], a.out.size(), r.value().size(), a.out.size() == r.value().size() ? ", other ones" : "");
                count(names[what]);
            } else {
                SIM_CHECK(a.status || troubles() > f0, "%s: failed although nothing went wrong: %s", names[what], r.status().toString().c_str());
                count("failed");
            }
        }
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back(body);
    for (auto& t : ts) t.join();
    SIM_CHECK(popenUnwaited() == 0, "%d commands were not waited for", popenUnwaited());
}

namespace {
struct Metad {
    struct Node : simnet::Handler {
        Metad* m; int no; HostAddr addr;
        std::shared_ptr<void> dispatch(const std::string&, const void*) override {
            NoPreempt np;
            auto r = std::make_shared<mc::ExecResp>();
            if (m->leader == no) { r->set_code(nebula::cpp2::ErrorCode::SUCCEEDED); count("led"); }
            else { r->set_code(nebula::cpp2::ErrorCode::E_LEADER_CHANGED); r->set_leader(m->leader < 0 ? HostAddr("", 0) : m->nodes[m->leader]->addr); count("not_leader"); }
            return r;
        }
    };
    std::vector<std::unique_ptr<Node>> nodes;
    int leader = 0;
};
struct Job {
    std::string tail, want;                              // of the url, and what metad says when it is done
    int asked = 0; bool did = false, trouble = false;
};
Metad* metad;
std::map<std::string, Job>* jobs;
std::string* lastHost;
bool serveJob(const std::string& cmd, std::string* out, int* status) {
    NoPreempt np;
    Shell sh;
    SIM_CHECK(sh.read(cmd), "the shell would find %s in: %s", sh.trouble.c_str(), cmd.c_str());
    Curl c;
    SIM_CHECK(c.read(sh.words), "%s: %s", c.trouble.c_str(), cmd.c_str());
    SIM_CHECK(c.method == "GET" && !c.hasData, "metad's HTTP service is asked with %s", cmd.c_str());
    const Metad::Node* to = nullptr;
    std::string rest;
    for (auto& n : metad->nodes) {
        std::string head = "http://" + n->addr.host + ":" + std::to_string(FLAGS_ws_meta_http_port) + "/";
        if (c.url.compare(0, head.size(), head) == 0) { to = n.get(); rest = c.url.substr(head.size()); }
    }
    SIM_CHECK(to, "a request to no metad there is: %s", c.url.c_str());
    auto i = jobs->find(rest);
    SIM_CHECK(i != jobs->end(), "a request nobody made: %s", rest.c_str());
    Job& j = i->second;
    SIM_CHECK(j.asked++ == 0, "one request was sent twice: %s", rest.c_str());
    *lastHost = to->addr.host;
    *status = 0;
    auto almost = [&] {
        static const char* bad[] = {"", "SSTFile dispatch failed", "SSTFile ingest failed", "<html>500</html>", "Illegal", "null"};
        std::string s = bad[choose(F, 6)];
        if (choose(F, 4) == 1) s = j.want + "\n" + s;
        if (choose(F, 4) == 1) s = j.want.substr(0, choose(F, (uint32_t)j.want.size()));
        if (choose(F, 6) == 1) s = j.want == "SSTFile dispatch successfully" ? "SSTFile ingest successfully" : "SSTFile dispatch successfully";
        return s;
    };
    if (fault("curl_before", 1, 12)) { j.trouble = true; *status = curlTrouble(choose(F, 9)); out->clear(); return true; }
    if (fault("job_refused", 1, 8)) { j.trouble = true; *out = almost(); return true; }
    j.did = true;
    *out = j.want;
    if (fault("curl_after", 1, 12)) { j.trouble = true; *status = curlTrouble(choose(F, 9)); if (choose(F, 2)) out->resize(choose(F, (uint32_t)out->size() + 1)); }
    return true;
}
}  // namespace

SIM_SCENARIO(dispatch) {
    FLAGS_meta_client_timeout_ms = 2000; FLAGS_meta_client_retry_interval_secs = 1; FLAGS_meta_client_retry_times = choose(sim::W, 3);
    setClockLimitNs(7200000000000LL);
    simnet::start();
    onPopen(serveJob);
    for (auto* k : {"popen_fail", "pclose_fail", "read_fail", "short_read"}) if (choose(sim::W, 2)) setFaultRate(k, 6000);
    metad = new Metad(); jobs = new std::map<std::string, Job>(); lastHost = new std::string();
    int ns = 1 + choose(sim::W, 4);
    std::vector<HostAddr> addrs;
    for (int i = 0; i < ns; i++) {
        std::string ip = "10.0.0." + std::to_string(i + 1), name = "metad-" + std::string(choose(sim::W, 2) ? i * i * 20 + 5 : choose(sim::W, 3) * 20, 'x') + std::to_string(i) + ".cluster";
        simnet::host(name, ip);
        auto n = std::make_unique<Metad::Node>();
        n->m = metad; n->no = i; n->addr = HostAddr(name, 9559);
        simnet::listen(ip, 9559, n.get());
        addrs.push_back(n->addr);
        metad->nodes.push_back(std::move(n));
    }
    auto io = std::make_shared<folly::IOThreadPoolExecutor>(1 + choose(sim::W, 2));
    nebula::meta::MetaClientOptions o;
    o.localHost_ = HostAddr("10.0.1.1", 44500); o.skipConfig_ = true; o.role_ = mc::HostRole::GRAPH;
    auto* c = new MetaClient(io, addrs, o);
    int others = choose(sim::W, 3), nt = 1 + choose(sim::W, 3), each = 1 + choose(sim::W, 5), left = nt, serial = 0;
    auto one = [&](bool mustWork) {
        static const char* p[] = {"a", "b1", "/", "$", "$HOME", "`", "'", "\\", "\"", ";", "(", ")", "|", "*", "!", "~", "-", "."};
        std::string host = "hd" + std::to_string(choose(sim::W, 3)), path = "/" + bits(p, 18, 7);
        int port = choose(sim::W, 65536), space;
        bool ingest = choose(sim::W, 2);
        Job* j; uint64_t f0;
        {
            NoPreempt np;
            space = ++serial;
            std::string tail = ingest ? "ingest-dispatch?space=" + std::to_string(space) : "download-dispatch?host=" + host + "&port=" + std::to_string(port) + "&path=" + path + "&space=" + std::to_string(space);
            j = &(*jobs)[tail];
            j->tail = tail; j->want = ingest ? "SSTFile ingest successfully" : "SSTFile dispatch successfully";
            f0 = troubles();
        }
        auto r = (ingest ? c->ingest(space) : c->download(host, port, path, space)).get();
        NoPreempt np;
        bool yes = r.ok() && r.value();
        if (yes) { SIM_CHECK(j->asked == 1 && j->did && !j->trouble, "%s: reported as done though metad %s", j->tail.c_str(), j->asked ? j->did ? "was not heard" : "refused it" : "was not asked"); count(ingest ? "ingested" : "downloaded"); }
        else { SIM_CHECK(j->trouble || troubles() > f0, "%s: failed although nothing went wrong", j->tail.c_str()); count("failed"); }
        if (mustWork) SIM_CHECK(yes, "%s: failed without a fault", j->tail.c_str());
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back([&] { for (int k = 0; k < each; ++k) { if (choose(sim::W, 3) == 1) sleepNs(range(T, 1000, choose(sim::W, 2) ? 2000000000LL : 50000)); one(false); } NoPreempt np; --left; });
    for (int t = 0; t < others; ++t) ts.emplace_back([&] {
        for (;;) {
            { NoPreempt np; if (!left) break; if (choose(sim::W, 2)) { fault("leader_change", 1, 1); metad->leader = choose(F, 2) && metad->leader + 1 < ns ? metad->leader + 1 : (int)choose(F, ns + 1) - 1; } }
            auto f = c->dropSpace("s", false).get();
            sleepNs(range(T, 1000, 1000000000LL));
        }
    });
    for (auto& t : ts) t.join();
    // The leader is up, stays and is known: it is the one asked.
    setFaults(false); setSkips(false);
    { NoPreempt np; metad->leader = choose(sim::W, ns); }
    bool known = false;
    for (int i = 0; i < 20 && !known; i++) known = c->dropSpace("s", false).get().ok();
    SIM_CHECK(known, "metad was not reached although it is up");
    one(true);
    SIM_CHECK(*lastHost == metad->nodes[metad->leader]->addr.host, "%s was asked although metad's leader is %s", lastHost->c_str(), metad->nodes[metad->leader]->addr.host.c_str());
    SIM_CHECK(popenUnwaited() == 0, "%d commands were not waited for", popenUnwaited());
    c->stop();
    delete c;
    io->stop();
    simnet::stop();
}
