// A simulated network: named hosts, servers and connections.  Everything that
// happens on it happens on one simulated thread, at a virtual time drawn by the
// simulator; answers reach a client on its own event base.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <folly/futures/Future.h>
#include <folly/io/async/EventBase.h>
namespace simnet {
enum class Err { NONE = -1, UNKNOWN = 0, NOT_OPEN = 1, TIMED_OUT = 3, END_OF_FILE = 4, APPLICATION = 100 };
using Done = std::function<void(Err, const std::string&, std::shared_ptr<void>)>;

// What a server does with a request, in one indivisible step.
struct Handler {
    virtual ~Handler() {}
    virtual std::shared_ptr<void> dispatch(const std::string& method, const void* req) = 0;
};
// Thrown by a handler to answer with an exception instead.
struct ServerError { std::string what; };
[[noreturn]] void unimplemented(const char* method);

struct Conn;
std::shared_ptr<Conn> connect(folly::EventBase* evb, const std::string& ip, uint16_t port, uint32_t timeoutMs);
bool good(const std::shared_ptr<Conn>& c);
bool hangup(const std::shared_ptr<Conn>& c);
void close(const std::shared_ptr<Conn>& c);
void send(const std::shared_ptr<Conn>& c, const char* method, std::shared_ptr<void> req, uint32_t timeoutMs, Done done);

// For harnesses -------------------------------------------------------------
struct Faults {   // chances out of 65536, per event
    uint32_t connectRefused = 0, connectLost = 0, requestLost = 0, replyLost = 0, reset = 0, slow = 0, appError = 0;
    int64_t minNs = 50 * 1000, maxNs = 3 * 1000 * 1000, slowNs = 4000000000LL;
};
extern Faults faults;
void start();                                    // makes the network thread
void stop();
void host(const std::string& name, const std::string& ip);       // name service; "" = unknown
void listen(const std::string& ip, uint16_t port, Handler* h);   // a server comes up
void crash(const std::string& ip, uint16_t port);                // and dies: its connections break
void blackhole(const std::string& ip, uint16_t port, bool on);   // cut off: nothing gets through
void at(int64_t fromNowNs, std::function<void()> f);             // on the network thread
struct Seen { uint64_t connects = 0, calls = 0, served = 0, failed = 0, wrongThread = 0, wrongClose = 0; };
Seen& seen();
// every connection ever made: where to, on which event base, when, still usable?
struct ConnInfo { uint64_t id; folly::EventBase* evb; std::string ip; uint16_t port; bool good, hangup, closed; };   // closed: by the client, while it worked
ConnInfo info(uint64_t id);
uint64_t lastConn();
uint64_t idOf(const std::shared_ptr<Conn>& c);
std::function<void(const ConnInfo&, const char*, const void*)>& onCall();     // called when a request is handed over
std::string resolve(const std::string& name);    // throws std::system_error
}

namespace folly {
class AsyncTransport { public: virtual ~AsyncTransport() {} virtual bool good() const = 0; };
class AsyncSocket : public AsyncTransport {
public:
    AsyncSocket(EventBase* evb, const std::string& ip, uint16_t port, uint32_t timeoutMs) : evb_(evb), conn_(simnet::connect(evb, ip, port, timeoutMs)) {}
    ~AsyncSocket() override { simnet::close(conn_); }
    static std::shared_ptr<AsyncSocket> newSocket(EventBase* evb, const std::string& ip, uint16_t port, uint32_t timeoutMs = 0) { return std::make_shared<AsyncSocket>(evb, ip, port, timeoutMs); }
    bool good() const override { return simnet::good(conn_); }
    bool hangup() const { return simnet::hangup(conn_); }
    EventBase* getEventBase() const { return evb_; }
    const std::shared_ptr<simnet::Conn>& conn() const { return conn_; }
private:
    EventBase* evb_;
    std::shared_ptr<simnet::Conn> conn_;
};
class IPAddress { public: static bool validate(const std::string& s) noexcept; };
class SocketAddress {
public:
    SocketAddress(const std::string& h, uint16_t port, bool lookup = false) : port_(port) { if (IPAddress::validate(h)) ip_ = h; else { if (!lookup) throw std::runtime_error("not an address: " + h); ip_ = simnet::resolve(h); } }
    std::string getAddressStr() const { return ip_; }
    uint16_t getPort() const { return port_; }
private:
    std::string ip_; uint16_t port_;
};
}

#define THRIFT_UNFRAMED_DEPRECATED 1
namespace apache { namespace thrift {
namespace protocol { enum PROTOCOL_TYPES { T_BINARY_PROTOCOL = 0, T_COMPACT_PROTOCOL = 2 }; }
struct TException : std::exception {};
struct TApplicationException : TException {
    explicit TApplicationException(std::string w) : what_(std::move(w)) {}
    const char* what() const noexcept override { return what_.c_str(); }
    std::string what_;
};
namespace transport {
class TTransportException : public TException {
public:
    enum TTransportExceptionType { UNKNOWN = 0, NOT_OPEN = 1, TIMED_OUT = 3, END_OF_FILE = 4 };
    TTransportException(TTransportExceptionType t, std::string w) : type_(t), what_(std::move(w)) {}
    TTransportExceptionType getType() const { return type_; }
    const char* what() const noexcept override { return what_.c_str(); }
private:
    TTransportExceptionType type_;
    std::string what_;
};
}
class RequestChannel {
public:
    virtual ~RequestChannel() {}
    virtual void send(const char* method, std::shared_ptr<void> req, simnet::Done done) = 0;
};
class HeaderClientChannel : public RequestChannel {
public:
    using Ptr = std::unique_ptr<HeaderClientChannel>;
    static Ptr newChannel(std::shared_ptr<folly::AsyncSocket> s) { return Ptr(new HeaderClientChannel(std::move(s))); }
    explicit HeaderClientChannel(std::shared_ptr<folly::AsyncSocket> s) : sock_(std::move(s)) {}
    ~HeaderClientChannel() override { simnet::close(sock_->conn()); }
    bool good() { return sock_->good(); }
    folly::AsyncTransport* getTransport() { return sock_.get(); }
    void setTimeout(uint32_t ms) { timeout_ = ms; }
    uint32_t getTimeout() const { return timeout_; }
    void setProtocolId(uint16_t) {}
    void setClientType(int) {}
    folly::EventBase* getEventBase() { return sock_->getEventBase(); }
    void send(const char* method, std::shared_ptr<void> req, simnet::Done done) override { simnet::send(sock_->conn(), method, std::move(req), timeout_, std::move(done)); }
private:
    std::shared_ptr<folly::AsyncSocket> sock_;
    uint32_t timeout_ = 0;
};
} }

namespace simnet {
template <class Req, class Resp>
folly::SemiFuture<Resp> call(const std::shared_ptr<apache::thrift::RequestChannel>& ch, const char* method, const Req& req) {
    auto p = std::make_shared<folly::Promise<Resp>>();
    auto f = p->getSemiFuture();
    ch->send(method, std::make_shared<Req>(req), [p](Err e, const std::string& what, std::shared_ptr<void> r) {
        using TT = apache::thrift::transport::TTransportException;
        if (e == Err::NONE) p->setValue(std::move(*std::static_pointer_cast<Resp>(r)));
        else if (e == Err::APPLICATION) p->setException(apache::thrift::TApplicationException(what));
        else p->setException(TT(static_cast<TT::TTransportExceptionType>(e), what));
    });
    return f;
}
}
