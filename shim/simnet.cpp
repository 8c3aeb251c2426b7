#include "simnet.h"
#include <arpa/inet.h>
#include <condition_variable>
#include <mutex>
#include <system_error>
#include <thread>
#include "sim.h"
namespace simnet {
Faults faults;
namespace {
struct Req { std::string method; std::shared_ptr<void> body; Done done; bool sent = false; uint32_t timeoutMs = 0; };
struct Node { Handler* h = nullptr; bool hole = false; uint64_t life = 0; };
using Key = std::pair<std::string, uint16_t>;
struct Net {
    std::mutex m;
    std::condition_variable c;
    std::multimap<int64_t, std::function<void()>> q;
    bool stop = false, running = false;
    std::thread th;
    std::map<std::string, std::string> names;
    std::map<Key, Node> nodes;
    std::vector<std::shared_ptr<Conn>> all;
    uint64_t nextConn = 1, nextReq = 1;
    Seen seen;
    std::function<void(const ConnInfo&, const char*, const void*)> onCall;
};
Net& N() { static auto* n = new Net(); return *n; }
using G = std::unique_lock<std::mutex>;
}  // namespace

struct Conn : std::enable_shared_from_this<Conn> {
    enum { CONNECTING, OPEN, DEAD } st = CONNECTING;
    bool eof = false, closed = false, cut = false;
    folly::EventBase* evb = nullptr;
    std::string ip; uint16_t port = 0;
    uint64_t id = 0, life = 0;   // life: which incarnation of the server accepted it
    std::map<uint64_t, Req> pending;
};

namespace {
void push(int64_t ns, std::function<void()> f) { auto& n = N(); n.q.emplace(sim::monoNs() + ns, std::move(f)); n.c.notify_all(); }   // locked
int64_t delay() {
    if (faults.slow && sim::fault("net_slow", faults.slow, 65536)) return sim::range(sim::F, faults.maxNs, faults.slowNs);
    return sim::range(sim::T, faults.minNs, faults.maxNs);
}
bool cut(const Conn& c) { auto it = N().nodes.find({c.ip, c.port}); return it != N().nodes.end() && it->second.hole; }
Handler* server(const Conn& c) { auto it = N().nodes.find({c.ip, c.port}); return it == N().nodes.end() ? nullptr : it->second.h; }

// Ends one request on the client's event base, unless something else did before.
void finish(const std::shared_ptr<Conn>& c, uint64_t id, Err e, const std::string& what, std::shared_ptr<void> r) {
    c->evb->runInEventBaseThread([c, id, e, what, r] {
        Done d;
        {
            G g(N().m);
            auto it = c->pending.find(id);
            if (it == c->pending.end()) return;
            d = std::move(it->second.done);
            c->pending.erase(it);
            if (e == Err::NONE) ++N().seen.served; else ++N().seen.failed;
        }
        d(e, what, r);
    });
}
// The connection is unusable from now on (locked).
void die(const std::shared_ptr<Conn>& c, Err e, const std::string& what) {
    if (c->st == Conn::DEAD) return;
    c->st = Conn::DEAD;
    c->eof = true;
    std::vector<uint64_t> ids;
    for (auto& p : c->pending) ids.push_back(p.first);
    for (auto id : ids) finish(c, id, e, what, nullptr);
}
void deliver(const std::shared_ptr<Conn>& c, uint64_t id, const std::string& method, const std::shared_ptr<void>& body);
uint64_t life(const Conn& c) { auto it = N().nodes.find({c.ip, c.port}); return it == N().nodes.end() ? 0 : it->second.life; }
void transmit(const std::shared_ptr<Conn>& c, uint64_t id) {   // locked
    auto& r = c->pending[id];
    r.sent = true;
    push(delay(), [c, id, method = r.method, body = r.body] { deliver(c, id, method, body); });
}
// On the network thread.  A request the client gave up still reaches the server.
void deliver(const std::shared_ptr<Conn>& c, uint64_t id, const std::string& method, const std::shared_ptr<void>& body) {
    Handler* h;
    {
        G g(N().m);
        if (c->st == Conn::CONNECTING) return;
        if (cut(*c)) return;
        if (faults.requestLost && sim::fault("net_request_lost", faults.requestLost, 65536)) return;
        if (faults.reset && sim::fault("net_reset_before", faults.reset, 65536)) { die(c, Err::END_OF_FILE, "connection reset by peer"); return; }
        h = server(*c);
        if (!h || life(*c) != c->life) { die(c, Err::END_OF_FILE, "Channel got EOF"); return; }
    }
    if (faults.appError && sim::fault("net_server_error", faults.appError, 65536)) { finish(c, id, Err::APPLICATION, "server overloaded", nullptr); return; }
    std::shared_ptr<void> resp;
    Err e = Err::NONE;
    std::string what;
    try { resp = h->dispatch(method, body.get()); } catch (const ServerError& x) { e = Err::APPLICATION; what = x.what; }
    G g(N().m);
    if (server(*c) != h || life(*c) != c->life) return;   // it crashed on the way: the connection broke with it
    if (faults.reset && sim::fault("net_reset_after", faults.reset, 65536)) { die(c, Err::END_OF_FILE, "connection reset by peer"); return; }
    if (faults.replyLost && sim::fault("net_reply_lost", faults.replyLost, 65536)) return;
    push(delay(), [c, id, e, what, resp] {
        { G g(N().m); if (c->st != Conn::OPEN || cut(*c) || life(*c) != c->life) return; }
        finish(c, id, e, what, resp);
    });
}
}  // namespace

void unimplemented(const char* method) { sim::harnessError("simulated server does not implement %s", method); }

std::shared_ptr<Conn> connect(folly::EventBase* evb, const std::string& ip, uint16_t port, uint32_t timeoutMs) {
    auto& n = N();
    auto c = std::make_shared<Conn>();
    bool wrong = !evb->isInEventBaseThread();
    G g(n.m);
    c->evb = evb; c->ip = ip; c->port = port; c->id = n.nextConn++;
    n.all.push_back(c);
    ++n.seen.connects;
    if (wrong) ++n.seen.wrongThread;
    if (!folly::IPAddress::validate(ip)) { c->st = Conn::DEAD; return c; }
    if (timeoutMs) push(int64_t(timeoutMs) * 1000000, [c] { G g2(N().m); if (c->st == Conn::CONNECTING) die(c, Err::TIMED_OUT, "connect timed out"); });
    if (faults.connectLost && sim::fault("net_connect_lost", faults.connectLost, 65536)) return c;
    push(delay(), [c] {
        G g2(N().m);
        if (c->st != Conn::CONNECTING || cut(*c)) return;
        if (!server(*c) || (faults.connectRefused && sim::fault("net_connect_refused", faults.connectRefused, 65536))) { die(c, Err::NOT_OPEN, "connection refused"); return; }
        c->st = Conn::OPEN;
        c->life = life(*c);
        std::vector<uint64_t> ids;
        for (auto& p : c->pending) ids.push_back(p.first);
        for (auto id : ids) transmit(c, id);
    });
    return c;
}
bool good(const std::shared_ptr<Conn>& c) { G g(N().m); return c->st != Conn::DEAD; }
bool hangup(const std::shared_ptr<Conn>& c) { G g(N().m); return c->eof; }
void close(const std::shared_ptr<Conn>& c) {
    std::vector<Done> ds;
    {
        bool wrong = !c->evb->isInEventBaseThread();
        G g(N().m);
        if (!c->closed && wrong) ++N().seen.wrongClose;
        if (!c->closed) c->cut = c->st != Conn::DEAD && !c->eof;
        c->closed = true;
        c->st = Conn::DEAD;
        for (auto& p : c->pending) ds.push_back(std::move(p.second.done));
        c->pending.clear();
    }
    for (auto& d : ds) d(Err::END_OF_FILE, "Channel is closed", nullptr);
}
void send(const std::shared_ptr<Conn>& c, const char* method, std::shared_ptr<void> req, uint32_t timeoutMs, Done done) {
    auto& n = N();
    bool wrong = !c->evb->isInEventBaseThread();
    std::function<void(const ConnInfo&, const char*, const void*)> cb;
    ConnInfo ci{c->id, c->evb, c->ip, c->port, true, false, false};
    {
        G g(n.m);
        ++n.seen.calls;
        if (wrong) ++n.seen.wrongThread;
        ci.good = c->st != Conn::DEAD; ci.hangup = c->eof;
        cb = n.onCall;
    }
    if (cb) cb(ci, method, req.get());
    G g(n.m);
    uint64_t id = n.nextReq++;
    Req r;
    r.method = method; r.body = std::move(req); r.done = std::move(done); r.timeoutMs = timeoutMs;
    c->pending[id] = std::move(r);
    if (c->st != Conn::DEAD && c->eof) die(c, Err::END_OF_FILE, "Channel got EOF");
    else if (c->st == Conn::DEAD) { finish(c, id, Err::NOT_OPEN, "transport is not open", nullptr); return; }
    if (c->st == Conn::DEAD) return;
    if (timeoutMs) push(int64_t(timeoutMs) * 1000000, [c, id] { finish(c, id, Err::TIMED_OUT, "Timed Out", nullptr); });
    if (c->st == Conn::OPEN) transmit(c, id);
}

void start() {
    auto& n = N();
    n.running = true;
    n.th = std::thread([&n] {
        G g(n.m);
        while (!n.stop) {
            if (n.q.empty()) { n.c.wait(g); continue; }
            int64_t due = n.q.begin()->first, now = sim::monoNs();
            if (due > now) { n.c.wait_for(g, std::chrono::nanoseconds(due - now)); continue; }
            auto f = std::move(n.q.begin()->second);
            n.q.erase(n.q.begin());
            g.unlock();
            f();
            f = nullptr;
            g.lock();
        }
    });
}
void stop() { auto& n = N(); { G g(n.m); n.stop = true; n.c.notify_all(); } if (n.running) n.th.join(); n.running = false; }
void host(const std::string& name, const std::string& ip) { G g(N().m); N().names[name] = ip; }
void listen(const std::string& ip, uint16_t port, Handler* h) { G g(N().m); N().nodes[{ip, port}].h = h; }
void crash(const std::string& ip, uint16_t port) {
    G g(N().m);
    auto it = N().nodes.find({ip, port});
    if (it == N().nodes.end() || !it->second.h) return;
    it->second.h = nullptr;
    ++it->second.life;
    if (it->second.hole) return;     // nobody hears of it
    for (auto& c : N().all) if (c->ip == ip && c->port == port && c->st == Conn::OPEN) push(delay(), [c] {
        G g2(N().m);
        // nobody reads from an idle connection: only asking the socket shows that the peer is gone
        if (c->pending.empty() && sim::chance(sim::T, 1, 2)) c->eof = true;
        else die(c, Err::END_OF_FILE, "Channel got EOF");
    });
}
void blackhole(const std::string& ip, uint16_t port, bool on) { G g(N().m); N().nodes[{ip, port}].hole = on; }
void at(int64_t ns, std::function<void()> f) { G g(N().m); push(ns, std::move(f)); }
Seen& seen() { return N().seen; }
ConnInfo info(uint64_t id) { G g(N().m); auto& c = N().all.at(id - 1); return ConnInfo{c->id, c->evb, c->ip, c->port, c->st != Conn::DEAD, c->eof, c->cut}; }
uint64_t lastConn() { G g(N().m); return N().nextConn - 1; }
uint64_t idOf(const std::shared_ptr<Conn>& c) { return c->id; }
std::function<void(const ConnInfo&, const char*, const void*)>& onCall() { return N().onCall; }
std::string resolve(const std::string& name) {
    sim::yieldPoint();
    if (sim::fault("dns_fail", 1, 16)) throw std::system_error(EAGAIN, std::generic_category(), "Failed to resolve address for '" + name + "'");
    G g(N().m);
    auto it = N().names.find(name);
    if (it == N().names.end() || it->second.empty()) throw std::system_error(ENOENT, std::generic_category(), "Failed to resolve address for '" + name + "'");
    return it->second;
}
}  // namespace simnet
namespace folly {
bool IPAddress::validate(const std::string& s) noexcept {
    unsigned char b[16];
    return inet_pton(AF_INET, s.c_str(), b) == 1 || inet_pton(AF_INET6, s.c_str(), b) == 1;
}
}
