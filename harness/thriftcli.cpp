// ThriftClientManager: which connection a caller is given, while name service,
// servers and network fail underneath.
#include "sim.h"
#include "simnet.h"
#include "common/base/Base.h"
#include <folly/executors/IOThreadPoolExecutor.h>
#include "common/thrift/ThriftClientManager.h"
#include "common/interface/gen-cpp2/MetaServiceAsyncClient.h"

using namespace sim;
using nebula::HostAddr;
namespace cpp2 = nebula::meta::cpp2;
using Client = cpp2::MetaServiceAsyncClient;
using Manager = nebula::thrift::ThriftClientManager<Client>;

namespace {
struct Server : cpp2::MetaServiceSvIf {
    std::string ip; uint16_t port = 0;
    void listSpaces(cpp2::ListSpacesResp& resp, const cpp2::ListSpacesReq&) override {
        resp.set_code(nebula::cpp2::ErrorCode::SUCCEEDED);
        resp.set_leader(HostAddr(ip, port));             // says who answered
    }
};
struct Key { int tid; HostAddr host; folly::EventBase* evb; bool operator<(const Key& o) const { return std::tie(tid, host.host, host.port, evb) < std::tie(o.tid, o.host.host, o.host.port, o.evb); } };
struct W_ {
    std::vector<HostAddr> hosts;
    std::vector<std::unique_ptr<Server>> servers;
    std::map<std::string, std::vector<std::string>> mapped;          // every address a name ever had
    std::map<Key, uint64_t> last;
    std::map<int, std::vector<std::shared_ptr<Client>>> held;
    int pending = 0;
    int64_t begunCalls = 0;
};
uint64_t connOf(Client* c, apache::thrift::HeaderClientChannel** chan = nullptr) {
    auto* ch = dynamic_cast<apache::thrift::HeaderClientChannel*>(c->getChannel());
    SIM_CHECK(ch, "the client has no header channel");
    if (chan) *chan = ch;
    return simnet::idOf(dynamic_cast<folly::AsyncSocket*>(ch->getTransport())->conn());
}
// One look-up by this thread, judged.
std::shared_ptr<Client> lookUp(W_* w, Manager* mgr, const HostAddr& h, folly::EventBase* evb, folly::EventBase* want, uint32_t timeout, bool compat) {
    Key k{tid(), h, want};
    uint64_t prev = 0;
    { NoPreempt np; prev = w->last[k]; }
    uint64_t newest = simnet::lastConn();
    bool prevGood = prev && [&] { auto i = simnet::info(prev); return i.good && !i.hangup; }();
    std::vector<bool> works;                             // of the connections there are already
    for (uint64_t i = 1; i <= newest; i++) { auto x = simnet::info(i); works.push_back(x.good && !x.hangup); }
    std::shared_ptr<Client> c;
    try {
        c = mgr->client(h, evb, compat, timeout);
    } catch (const std::exception& e) { violation("looking up a client for %s:%d threw: %s", h.host.c_str(), h.port, e.what()); }
    SIM_CHECK(c, "no client for %s:%d", h.host.c_str(), h.port);
    apache::thrift::HeaderClientChannel* ch;
    uint64_t id = connOf(c.get(), &ch);
    auto ci = simnet::info(id);
    SIM_CHECK(ci.evb == want, "client for %s:%d lives on another event base than the caller's", h.host.c_str(), h.port);
    SIM_CHECK(ci.port == h.port, "client for %s:%d is connected to port %d", h.host.c_str(), h.port, ci.port);
    bool addr = ci.ip == h.host;
    for (auto& ip : w->mapped.at(h.host)) addr |= ci.ip == ip;
    SIM_CHECK(addr, "client for %s:%d is connected to %s", h.host.c_str(), h.port, ci.ip.c_str());
    SIM_CHECK(!ci.closed, "client for %s:%d: its connection was closed on this side", h.host.c_str(), h.port);
    if (id <= newest) SIM_CHECK(works[id - 1], "broken connection to %s:%d handed out again", h.host.c_str(), h.port);
    if (prev) {
        auto pi = simnet::info(prev);
        if (id != prev) {
            SIM_CHECK(!(pi.good && !pi.hangup), "second look-up of %s:%d made another connection although the first still works", h.host.c_str(), h.port);
            SIM_CHECK(!pi.closed, "the working connection to %s:%d was closed", h.host.c_str(), h.port);
            count("replaced");
        } else {
            count("reused");
        }
    }
    if (id > newest) {
        SIM_CHECK(timeout == 0 || ch->getTimeout() == timeout, "client for %s:%d has a timeout of %u instead of %u ms", h.host.c_str(), h.port, ch->getTimeout(), timeout);
        count("connected");
    }
    { NoPreempt np; w->last[k] = id; }
    return c;
}
}  // namespace

SIM_SCENARIO(thrift_clients) {
    auto* w = new W_();
    auto& f = simnet::faults;
    if (faultsOn()) {
        static const uint32_t r[] = {0, 1500, 8000};
        f.connectRefused = r[choose(W, 3)]; f.connectLost = r[choose(W, 3)]; f.requestLost = r[choose(W, 3)];
        f.replyLost = r[choose(W, 3)]; f.reset = r[choose(W, 3)]; f.slow = r[choose(W, 2)]; f.appError = r[choose(W, 2)];
    }
    simnet::start();
    int nsrv = 1 + choose(W, 3);
    for (int i = 0; i < nsrv; i++) {
        auto s = std::make_unique<Server>();
        s->ip = "10.0.0." + std::to_string(i + 1); s->port = 9559;
        simnet::listen(s->ip, s->port, s.get());
        w->hosts.emplace_back(s->ip, s->port);
        if (choose(W, 2)) {
            std::string n = "meta" + std::to_string(i);
            simnet::host(n, s->ip);
            w->mapped[n].push_back(s->ip);
            w->hosts.emplace_back(n, s->port);
        }
        w->servers.push_back(std::move(s));
    }
    if (choose(W, 4) == 1) w->hosts.emplace_back("nowhere", 9559);
    if (choose(W, 4) == 1) w->hosts.emplace_back("10.0.0.1", 9560);     // nobody listens
    for (auto& h : w->hosts) w->mapped[h.host];
    auto* mgr = new Manager();
    int nio = 1 + choose(W, 2);
    auto* pool = new folly::IOThreadPoolExecutor(nio);
    std::vector<folly::EventBase*> evbs;
    for (int i = 0; i < nio; i++) evbs.push_back(pool->getEventBase());
    int nops = 4 + choose(W, 12);
    note("servers=%d hosts=%zu io-threads=%d ops=%d", nsrv, w->hosts.size(), nio, nops);
    setClockLimitNs(3600LL * 1000000000);

    auto oneOp = [=](int i) {
        auto* evb = evbs[choose(W, nio)];
        HostAddr h = w->hosts[choose(W, (uint32_t)w->hosts.size())];
        uint32_t timeout = choose(W, 3) == 0 ? 0 : 200 * (1 + choose(W, 20));
        bool compat = choose(W, 4) == 1;
        int what = choose(W, 8), mode = choose(W, 6);
        if (mode == 1) {                                 // by this thread, for another thread's event base
            auto c = lookUp(w, mgr, h, evb, evb, timeout, compat);
            if (choose(W, 2)) { NoPreempt np; w->held[tid()].push_back(c); }
            return;
        }
        { NoPreempt np; ++w->pending; }
        bool dflt = mode == 2, keep = choose(W, 3) == 1;
        evb->runInEventBaseThread([=] {
            auto c = lookUp(w, mgr, h, dflt ? nullptr : evb, evb, timeout, compat);
            if (keep) { NoPreempt np; w->held[tid()].push_back(c); }
            apache::thrift::HeaderClientChannel* ch;
            connOf(c.get(), &ch);
            if (what < 3 || ch->getTimeout() == 0) { NoPreempt np; --w->pending; return; }
            cpp2::ListSpacesReq req;
            std::string ip = simnet::info(connOf(c.get())).ip;
            c->future_listSpaces(req).via(evb).then([=](folly::Try<cpp2::ListSpacesResp>&& t) {
                if (t.hasValue()) {
                    SIM_CHECK(t.value().get_leader() == HostAddr(ip, h.port), "request to %s was answered by %s", ip.c_str(), t.value().get_leader().toString().c_str());
                    count("answered");
                } else count("rpc_failed");
                NoPreempt np;
                --w->pending;
            });
        });
        if (what == 7) sleepNs(range(T, 1000, 2000000000));
    };
    // what happens to the world meanwhile
    int nev = faultsOn() ? choose(W, 5) : 0;
    for (int i = 0; i < nev; i++) {
        auto* s = w->servers[choose(W, nsrv)].get();
        int kind = choose(W, 4);
        int64_t at = range(T, 0, 4000000000LL), dur = range(T, 1000000, 5000000000LL);
        if (kind == 0) simnet::at(at, [=] { fault("server_crash", 1, 1); simnet::crash(s->ip, s->port); simnet::at(dur, [=] { simnet::listen(s->ip, s->port, s); }); });
        else if (kind == 1) simnet::at(at, [=] { fault("net_partition", 1, 1); simnet::blackhole(s->ip, s->port, true); simnet::at(dur, [=] { simnet::blackhole(s->ip, s->port, false); }); });
        else if (kind == 2) {
            std::string n = "meta" + std::to_string(choose(W, nsrv)), ip = s->ip;
            if (w->mapped.count(n)) { w->mapped[n].push_back(ip); simnet::at(at, [=] { fault("dns_change", 1, 1); simnet::host(n, ip); }); }
        } else simnet::at(at, [=] { fault("server_bounce", 1, 1); simnet::crash(s->ip, s->port); simnet::listen(s->ip, s->port, s); });
    }
    std::vector<std::thread> ts;
    int nt = 1 + choose(W, 2);
    for (int t = 0; t < nt; t++) ts.emplace_back([=] { for (int i = t; i < nops; i += nt) oneOp(i); { NoPreempt np; std::vector<std::shared_ptr<Client>> drop; drop.swap(w->held[tid()]); w->held[tid()].swap(drop); } });
    for (auto& t : ts) t.join();
    SIM_CHECK(waitUntil([w] { return w->pending == 0; }, 600LL * 1000000000), "a request was never answered: %d left", w->pending);
    for (int i = 0; i < nops / 2; i++) {                 // again, once everything is quiet
        oneOp(i);
        SIM_CHECK(waitUntil([w] { return w->pending == 0; }, 600LL * 1000000000), "a request was never answered: %d left", w->pending);
    }
    SIM_CHECK(simnet::seen().wrongThread == 0, "a connection was used off its event base's thread");
    for (auto& p : w->held) p.second.clear();            // from the wrong thread on purpose
    SIM_CHECK(simnet::seen().wrongClose == 0, "a connection was closed off its event base's thread");
    pool->stop();
    SIM_CHECK(simnet::seen().wrongClose == 0, "a connection was closed off its event base's thread");
    simnet::stop();
}
