// Stand-in for proxygen's HTTP server: the same interfaces and life cycle of a
// request handler, over simulated clients.
#pragma once
#include <boost/optional.hpp>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <system_error>
#include <thread>
#include <vector>
#include <folly/SocketAddress.h>
#include <folly/io/IOBuf.h>
#include <folly/io/async/EventBase.h>
#include <folly/Conv.h>
#include <folly/dynamic.h>
#include <folly/json.h>
#include <sim.h>

namespace proxygen {
enum class HTTPMethod { GET, POST, OPTIONS, DELETE, HEAD, CONNECT, CONNECT_UDP, PUT, TRACE, PATCH, SUB, PUB, UNSUB };
inline boost::optional<HTTPMethod> stringToMethod(const std::string& s) {
    static const char* n[] = {"GET", "POST", "OPTIONS", "DELETE", "HEAD", "CONNECT", "CONNECT-UDP", "PUT", "TRACE", "PATCH", "SUB", "PUB", "UNSUB"};
    for (int i = 0; i < 13; i++) if (s == n[i]) return (HTTPMethod)i;
    return boost::none;
}
enum ProxygenError { kErrorNone, kErrorDropped, kErrorWrite, kErrorRead, kErrorShutdown, kErrorEOF, kErrorTimeout };
inline const char* getErrorString(ProxygenError e) { static const char* n[] = {"None", "Dropped", "Write", "Read", "Shutdown", "EOF", "Timeout"}; return n[e]; }
enum class UpgradeProtocol { TCP };

class HTTPMessage {
public:
    void setMethod(HTTPMethod m) { m_ = m; }
    void setMethod(const std::string& s) { m_ = stringToMethod(s); }
    boost::optional<HTTPMethod> getMethod() const { return m_; }
    void setURL(const std::string& u) {
        std::string r = u;
        auto p = r.find("://");
        if (p != std::string::npos) { r = r.substr(p + 3); auto q = r.find('/'); r = q == std::string::npos ? "" : r.substr(q); }
        auto q = r.find('?');
        path_ = r.substr(0, q);
        params_.clear();
        if (q == std::string::npos) return;
        std::string s = r.substr(q + 1);
        for (size_t i = 0; i <= s.size();) {
            auto e = s.find('&', i);
            if (e == std::string::npos) e = s.size();
            auto one = s.substr(i, e - i);
            auto eq = one.find('=');
            if (!one.empty()) params_[one.substr(0, eq)] = eq == std::string::npos ? "" : one.substr(eq + 1);
            i = e + 1;
        }
    }
    const std::string& getPath() const { return path_; }
    bool hasQueryParam(const std::string& n) const { return params_.count(n) != 0; }
    const std::string& getQueryParam(const std::string& n) const { static const std::string none; auto i = params_.find(n); return i == params_.end() ? none : i->second; }
    std::string getDecodedQueryParam(const std::string& n) const { return getQueryParam(n); }
private:
    boost::optional<HTTPMethod> m_;
    std::string path_;
    std::map<std::string, std::string> params_;
};

// What a handler answered; the server looks at it between callbacks.
class ResponseHandler {
public:
    int status = 0, messages = 0, ends = 0;
    std::string reason, body;
    bool ended() const { return ends > 0; }
};
class ResponseBuilder {
public:
    explicit ResponseBuilder(ResponseHandler* r) : r_(r) {}
    ResponseBuilder& status(uint16_t c, const std::string& m) { has_ = true; code_ = c; why_ = m; return *this; }
    template <class T> ResponseBuilder& header(const std::string&, const T&) { return *this; }
    ResponseBuilder& body(std::unique_ptr<folly::IOBuf> b) { body_ += b->moveToFbString().toStdString(); return *this; }
    template <class T> ResponseBuilder& body(T&& t) { body_ += folly::to<std::string>(std::forward<T>(t)); return *this; }
    void send() { if (has_) { r_->messages++; r_->status = code_; r_->reason = why_; has_ = false; } r_->body += body_; body_.clear(); }
    void sendWithEOM() { send(); r_->ends++; }
private:
    ResponseHandler* r_;
    bool has_ = false;
    int code_ = 0;
    std::string why_, body_;
};
}  // namespace proxygen
namespace simweb { inline std::set<const void*>& handlers() { static auto* s = new std::set<const void*>(); return *s; } }
namespace proxygen {
class RequestHandler {
public:
    RequestHandler() { sim::NoPreempt np; simweb::handlers().insert(this); }
    virtual ~RequestHandler() { sim::NoPreempt np; simweb::handlers().erase(this); }
    virtual void setResponseHandler(ResponseHandler* h) noexcept { downstream_ = h; }
    virtual void onRequest(std::unique_ptr<HTTPMessage> headers) noexcept = 0;
    virtual void onBody(std::unique_ptr<folly::IOBuf> body) noexcept = 0;
    virtual void onUpgrade(UpgradeProtocol prot) noexcept = 0;
    virtual void onEOM() noexcept = 0;
    virtual void requestComplete() noexcept = 0;
    virtual void onError(ProxygenError err) noexcept = 0;
    virtual void onEgressPaused() noexcept {}
    virtual void onEgressResumed() noexcept {}
protected:
    ResponseHandler* downstream_{nullptr};
};
class RequestHandlerFactory {
public:
    virtual void onServerStart(folly::EventBase* evb) noexcept = 0;
    virtual void onServerStop() noexcept = 0;
    virtual RequestHandler* onRequest(RequestHandler*, HTTPMessage*) noexcept = 0;
    virtual ~RequestHandlerFactory() = default;
};
class RequestHandlerChain {
public:
    std::vector<std::unique_ptr<RequestHandlerFactory>> build() { std::vector<std::unique_ptr<RequestHandlerFactory>> r; r.swap(v_); return r; }
    template <class T, class... A> RequestHandlerChain& addThen(A&&... a) { v_.push_back(std::make_unique<T>(std::forward<A>(a)...)); return *this; }
    RequestHandlerChain& addThen(std::unique_ptr<RequestHandlerFactory> f) { v_.push_back(std::move(f)); return *this; }
private:
    std::vector<std::unique_ptr<RequestHandlerFactory>> v_;
};
class HTTPServerOptions {
public:
    size_t threads = 1;
    std::vector<std::unique_ptr<RequestHandlerFactory>> handlerFactories;
    std::chrono::milliseconds idleTimeout{60000};
    bool enableContentCompression{false}, h2cEnabled{false};
    std::vector<int> shutdownOn;
};
}  // namespace proxygen

namespace simweb {
struct Answer { bool answered = false; int status = 0; std::string reason, body; };
struct Request {
    std::string method, url;
    std::vector<std::string> chunks;
    int errorAt = -1;                          // the connection is lost before this callback
    bool done = false;
    Answer answer;
};
struct Server { virtual ~Server() = default; virtual bool push(Request*) = 0; };
struct Net {
    std::mutex m;
    std::condition_variable c;
    std::map<int, Server*> ports;
    std::map<int, bool> h2;
    std::set<int> taken;                       // by somebody else
    int next = 40000;
    uint64_t served = 0, lost = 0;
};
inline Net& net() { static auto* n = new Net(); return *n; }
// Sends a request and waits for what comes back.
inline Answer request(int port, Request r) {
    auto& n = net();
    std::unique_lock<std::mutex> g(n.m);
    auto i = n.ports.find(port);
    if (i == n.ports.end() || !i->second->push(&r)) return {};
    n.c.wait(g, [&] { return r.done; });
    return r.answer;
}
}  // namespace simweb

namespace proxygen {
class HTTPServer : simweb::Server {
public:
    enum class Protocol : uint8_t { HTTP, SPDY, HTTP2 };
    struct IPConfig {
        IPConfig(folly::SocketAddress a, Protocol p) : address(a), protocol(p) {}
        folly::SocketAddress address;
        Protocol protocol;
    };
    explicit HTTPServer(HTTPServerOptions o) : o_(std::move(o)) {}
    ~HTTPServer() override { SIM_CHECK(!main_, "the web server is destroyed before it was stopped"); }
    void bind(const std::vector<IPConfig>& a) { a_ = a; }
    std::vector<IPConfig> addresses() const { return a_; }
    void start(std::function<void()> onSuccess = nullptr, std::function<void(std::exception_ptr)> onError = nullptr) {
        auto& n = simweb::net();
        main_ = true;
        std::string why;
        {
            std::lock_guard<std::mutex> g(n.m);
            for (auto& a : a_) {
                int p = a.address.getPort();
                if (sim::fault("bind_fail", 1, 6)) { why = "failed to bind to async server socket: Permission denied"; break; }
                if (p == 0) { while (n.taken.count(n.next) || n.ports.count(n.next)) n.next++; p = n.next++; a.address = folly::SocketAddress(a.address.getAddressStr(), p); }
                if (n.taken.count(p) || n.ports.count(p)) { why = "failed to bind to async server socket: Address already in use"; break; }
                n.ports[p] = this; n.h2[p] = a.protocol == Protocol::HTTP2; mine_.push_back(p);
            }
            if (!why.empty()) { for (int p : mine_) n.ports.erase(p); mine_.clear(); main_ = false; }
        }
        if (!why.empty()) {
            auto e = std::make_exception_ptr(std::system_error(EADDRINUSE, std::generic_category(), why));
            if (onError) { onError(e); return; }
            std::rethrow_exception(e);
        }
        for (auto& f : o_.handlerFactories) f->onServerStart(nullptr);
        for (size_t i = 0; i < o_.threads; i++) ts_.emplace_back([this] { work(); });
        if (onSuccess) onSuccess();
        std::unique_lock<std::mutex> g(n.m);
        c_.wait(g, [this] { return !main_; });
        left_ = true;
    }
    void stop() {
        auto& n = simweb::net();
        {
            std::lock_guard<std::mutex> g(n.m);
            SIM_CHECK(main_, "the web server is stopped, but it does not run");
            for (int p : mine_) n.ports.erase(p);
            mine_.clear();
            stop_ = true;
            for (auto* r : q_) { r->done = true; n.lost++; }
            q_.clear();
            c_.notify_all(); n.c.notify_all();
        }
        for (auto& t : ts_) t.join();
        ts_.clear();
        for (auto& f : o_.handlerFactories) f->onServerStop();
        std::lock_guard<std::mutex> g(n.m);
        main_ = false;
        c_.notify_all();
    }
private:
    bool push(simweb::Request* r) override { if (stop_) return false; q_.push_back(r); c_.notify_all(); return true; }
    void work() {
        auto& n = simweb::net();
        std::unique_lock<std::mutex> g(n.m);
        for (;;) {
            c_.wait(g, [this] { return stop_ || !q_.empty(); });
            if (q_.empty()) return;
            auto* r = q_.front();
            q_.pop_front();
            g.unlock();
            bool ok = serve(*r);
            g.lock();
            r->done = true;
            ++(ok ? n.served : n.lost);
            n.c.notify_all();
        }
    }
    bool dropped(simweb::Request& r, int step, RequestHandler* h) {
        if (r.errorAt != step && !stop_) return false;
        h->onError(stop_ ? kErrorDropped : step > 1 + (int)r.chunks.size() ? kErrorWrite : kErrorRead);
        return true;
    }
    bool serve(simweb::Request& r) {
        auto msg = std::make_unique<HTTPMessage>();
        msg->setMethod(r.method);
        msg->setURL(r.url);
        ResponseHandler out;
        RequestHandler* h = nullptr;
        for (auto& f : o_.handlerFactories) h = f->onRequest(h, msg.get());
        SIM_CHECK(h, "no handler for %s %s", r.method.c_str(), r.url.c_str());
        h->setResponseHandler(&out);
        int step = 0;
        if (dropped(r, step++, h)) return false;
        h->onRequest(std::move(msg));
        for (auto& c : r.chunks) {
            if (dropped(r, step++, h)) return false;
            h->onBody(folly::IOBuf::copyBuffer(c));
        }
        if (dropped(r, step++, h)) return false;
        h->onEOM();
        SIM_CHECK(out.messages == 1 && out.ends == 1, "%s %s: %d responses, %d ends of it", r.method.c_str(), r.url.c_str(), out.messages, out.ends);
        if (dropped(r, step++, h)) return false;
        h->requestComplete();
        r.answer = simweb::Answer{true, out.status, out.reason, out.body};
        return true;
    }
    HTTPServerOptions o_;
    std::vector<IPConfig> a_;
    std::vector<int> mine_;
    std::vector<std::thread> ts_;
    std::deque<simweb::Request*> q_;
    std::condition_variable c_;
    bool main_ = false, stop_ = false, left_ = false;
};
}  // namespace proxygen
