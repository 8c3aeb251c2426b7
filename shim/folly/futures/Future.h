#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <folly/Executor.h>
#include <folly/Try.h>
#include <folly/Unit.h>
namespace folly {
struct FutureException : std::logic_error { using std::logic_error::logic_error; };
struct BrokenPromise : FutureException { explicit BrokenPromise(const std::string& t) : FutureException("Broken promise for type name `" + t + "`") {} };
struct PromiseAlreadySatisfied : FutureException { PromiseAlreadySatisfied() : FutureException("Promise already satisfied") {} };
struct PromiseInvalid : FutureException { PromiseInvalid() : FutureException("Promise invalid") {} };
struct FutureInvalid : FutureException { FutureInvalid() : FutureException("Future invalid") {} };
struct FutureAlreadyRetrieved : FutureException { FutureAlreadyRetrieved() : FutureException("Future already retrieved") {} };
struct FutureAlreadyContinued : FutureException { FutureAlreadyContinued() : FutureException("Future already continued") {} };
struct FutureNotReady : FutureException { FutureNotReady() : FutureException("Future not ready") {} };
struct FutureTimeout : FutureException { FutureTimeout() : FutureException("Timed out") {} };

template <class T> class Future;
template <class T> class SemiFuture;
template <class T> class Promise;

namespace futures { namespace detail {
struct Baton {
    std::mutex m; std::condition_variable c; bool on = false;
    void post() { std::lock_guard<std::mutex> g(m); on = true; c.notify_all(); }
    void wait() { std::unique_lock<std::mutex> g(m); c.wait(g, [this] { return on; }); }
    template <class R, class P> bool try_wait_for(std::chrono::duration<R, P> d) { std::unique_lock<std::mutex> g(m); return c.wait_for(g, d, [this] { return on; }); }
};
template <class T>
struct CbBase { virtual ~CbBase() {} virtual void call(Executor::KeepAlive<>&&, Try<T>&&) = 0; };
template <class T, class F>
struct Cb : CbBase<T> { F f; explicit Cb(F&& g) : f(std::move(g)) {} void call(Executor::KeepAlive<>&& k, Try<T>&& t) override { f(std::move(k), std::move(t)); } };

// As folly's: the second of "result set" and "callback set" runs the callback,
// on the executor when there is one, else right there.
template <class T>
struct Core : std::enable_shared_from_this<Core<T>> {
    enum { START, RESULT, CALLBACK, DONE };
    std::atomic<int> st{START};
    Try<T> res;
    std::unique_ptr<CbBase<T>> cb;
    Executor* ex = nullptr;
    bool hasResult() const { int s = st.load(std::memory_order_acquire); return s == RESULT || s == DONE; }
    void setResult(Try<T>&& t) {
        res = std::move(t);
        int e = START;
        if (st.compare_exchange_strong(e, RESULT, std::memory_order_acq_rel)) return;
        if (e == CALLBACK) { st.store(DONE, std::memory_order_release); run(); return; }
        throw PromiseAlreadySatisfied();
    }
    void setCallback(std::unique_ptr<CbBase<T>> c) {
        cb = std::move(c);
        int e = START;
        if (st.compare_exchange_strong(e, CALLBACK, std::memory_order_acq_rel)) return;
        if (e == RESULT) { st.store(DONE, std::memory_order_release); run(); return; }
        throw FutureAlreadyContinued();
    }
    void run() {
        auto self = this->shared_from_this();
        if (ex && ex != &InlineExecutor::instance()) {
            ex->add([self]() mutable { auto c = std::move(self->cb); c->call(Executor::KeepAlive<>(self->ex), std::move(self->res)); c.reset(); });
        } else {
            auto c = std::move(cb);
            c->call(Executor::KeepAlive<>(&InlineExecutor::instance()), std::move(res));
        }
    }
};
template <class T> struct IsFuture { static constexpr bool value = false; using Inner = T; };
template <class T> struct IsFuture<Future<T>> { static constexpr bool value = true; using Inner = T; };
template <class T> struct IsFuture<SemiFuture<T>> { static constexpr bool value = true; using Inner = T; };
}}  // namespace futures::detail

template <class T>
class Promise {
    using Core = futures::detail::Core<T>;
public:
    Promise() : core_(std::make_shared<Core>()) {}
    static Promise makeEmpty() { Promise p; p.core_.reset(); return p; }
    Promise(Promise&& o) noexcept : core_(std::move(o.core_)), got_(o.got_) { o.core_.reset(); o.got_ = false; }
    Promise& operator=(Promise&& o) noexcept { if (this != &o) { detach(); core_ = std::move(o.core_); got_ = o.got_; o.core_.reset(); o.got_ = false; } return *this; }
    Promise(const Promise&) = delete;
    ~Promise() { detach(); }
    Future<T> getFuture();
    SemiFuture<T> getSemiFuture();
    bool valid() const { return (bool)core_; }
    bool isFulfilled() const { return core_ ? core_->hasResult() : true; }
    void setTry(Try<T>&& t) { need(); core_->setResult(std::move(t)); }
    template <class U = T, typename = std::enable_if_t<std::is_same<U, Unit>::value>> void setValue() { setTry(Try<T>(Unit())); }
    template <class M> void setValue(M&& v) { setTry(Try<T>(T(std::forward<M>(v)))); }
    void setException(exception_wrapper e) { setTry(Try<T>(std::move(e))); }
    template <class E> std::enable_if_t<std::is_base_of<std::exception, E>::value> setException(const E& e) { setException(exception_wrapper(e)); }
    template <class F> void setWith(F&& f) { need(); setTry(makeTryWith(std::forward<F>(f))); }
private:
    void need() { if (!core_) throw PromiseInvalid(); if (core_->hasResult()) throw PromiseAlreadySatisfied(); }
    void detach() {
        if (core_ && got_ && !core_->hasResult()) core_->setResult(Try<T>(exception_wrapper(BrokenPromise(simDemangle(typeid(T).name())))));
        core_.reset();
    }
    std::shared_ptr<Core> core_;
    bool got_ = false;
};

namespace futures { namespace detail {
template <class T>
class FutureBase {
public:
    using value_type = T;
    using Core_ = Core<T>;
    FutureBase() = default;
    explicit FutureBase(std::shared_ptr<Core_> c) : core_(std::move(c)) {}
    explicit FutureBase(T&& v) : core_(std::make_shared<Core_>()) { core_->setResult(Try<T>(std::move(v))); }
    explicit FutureBase(exception_wrapper e) : core_(std::make_shared<Core_>()) { core_->setResult(Try<T>(std::move(e))); }
    FutureBase(FutureBase&& o) noexcept : core_(std::move(o.core_)) { o.core_.reset(); }
    FutureBase& operator=(FutureBase&& o) noexcept { core_ = std::move(o.core_); o.core_.reset(); return *this; }
    bool valid() const { return (bool)core_; }
    bool isReady() const { return core().hasResult(); }
    bool hasValue() const { return isReady() && core().res.hasValue(); }
    bool hasException() const { return isReady() && core().res.hasException(); }
    T& value() & { return result().value(); }
    T value() && { return std::move(result().value()); }
    Try<T>& result() { if (!isReady()) throw FutureNotReady(); return core().res; }
    template <class F> void setCallback_(F&& f) { core(); auto c = std::move(core_); c->setCallback(std::make_unique<Cb<T, std::decay_t<F>>>(std::decay_t<F>(std::forward<F>(f)))); }
    Core_& core() const { if (!core_) throw FutureInvalid(); return *core_; }
    std::shared_ptr<Core_> core_;
protected:
    void waitHere() {
        if (isReady()) return;
        auto baton = std::make_shared<Baton>();
        auto next = std::make_shared<Core_>();
        next->ex = core().ex;
        setCallback_([baton, next](Executor::KeepAlive<>&&, Try<T>&& t) { next->setResult(std::move(t)); baton->post(); });
        core_ = next;
        baton->wait();
    }
    template <class R, class P> bool waitHereFor(std::chrono::duration<R, P> d) {
        if (isReady()) return true;
        auto baton = std::make_shared<Baton>();
        auto next = std::make_shared<Core_>();
        next->ex = core().ex;
        setCallback_([baton, next](Executor::KeepAlive<>&&, Try<T>&& t) { next->setResult(std::move(t)); baton->post(); });
        core_ = next;
        return baton->try_wait_for(d) && isReady();
    }
};
}}  // namespace futures::detail

template <class T>
class SemiFuture : public futures::detail::FutureBase<T> {
    using B = futures::detail::FutureBase<T>;
public:
    using typename B::value_type;
    SemiFuture() = delete;
    explicit SemiFuture(std::shared_ptr<futures::detail::Core<T>> c) : B(std::move(c)) {}
    SemiFuture(T&& v) : B(std::move(v)) {}  // NOLINT
    SemiFuture(const T& v) : B(T(v)) {}  // NOLINT
    SemiFuture(exception_wrapper e) : B(std::move(e)) {}  // NOLINT
    SemiFuture(Future<T>&& f);  // NOLINT
    SemiFuture(SemiFuture&&) = default;
    SemiFuture& operator=(SemiFuture&&) = default;
    Future<T> via(Executor* e) &&;
    Future<T> toUnsafeFuture() &&;
    SemiFuture& wait() & { this->waitHere(); return *this; }
    SemiFuture&& wait() && { this->waitHere(); return std::move(*this); }
    template <class R, class P> bool wait(std::chrono::duration<R, P> d) { return this->waitHereFor(d); }
    T get() && { this->waitHere(); auto c = std::move(this->core_); return std::move(c->res).value(); }
    template <class R, class P> T get(std::chrono::duration<R, P> d) && { if (!this->waitHereFor(d)) throw FutureTimeout(); auto c = std::move(this->core_); return std::move(c->res).value(); }
    Try<T> getTry() && { this->waitHere(); auto c = std::move(this->core_); return std::move(c->res); }
};

template <class T>
class Future : public futures::detail::FutureBase<T> {
    using B = futures::detail::FutureBase<T>;
public:
    using typename B::value_type;
    explicit Future(std::shared_ptr<futures::detail::Core<T>> c) : B(std::move(c)) {}
    template <class U = T, typename = std::enable_if_t<!futures::detail::IsFuture<std::decay_t<U>>::value && std::is_convertible<U&&, T>::value>>
    Future(U&& v) : B(T(std::forward<U>(v))) {}  // NOLINT
    explicit Future(exception_wrapper e) : B(std::move(e)) {}
    Future(Future&&) = default;
    Future& operator=(Future&&) = default;
    template <class U, typename = std::enable_if_t<!std::is_same<U, T>::value && std::is_convertible<U, T>::value>>
    Future(Future<U>&& o) : Future(std::move(o).thenValue([](U&& v) { return T(std::move(v)); })) {}  // NOLINT
    static Future makeEmpty() { return Future(std::shared_ptr<futures::detail::Core<T>>()); }
    Future via(Executor* e) && { this->core().ex = e; return std::move(*this); }
    SemiFuture<T> semi() && { return SemiFuture<T>(std::move(*this)); }
    Executor* getExecutor() const { return this->core().ex; }
    Future& wait() & { this->waitHere(); return *this; }
    Future&& wait() && { this->waitHere(); return std::move(*this); }
    template <class R, class P> bool wait(std::chrono::duration<R, P> d) { return this->waitHereFor(d); }
    T get() && { this->waitHere(); auto c = std::move(this->core_); return std::move(c->res).value(); }
    template <class R, class P> T get(std::chrono::duration<R, P> d) && { if (!this->waitHereFor(d)) throw FutureTimeout(); auto c = std::move(this->core_); return std::move(c->res).value(); }
    Try<T> getTry() && { this->waitHere(); auto c = std::move(this->core_); return std::move(c->res); }

    // func(Try<T>&&) -> U or Future<U>
    template <class F> auto thenTry(F&& f) && { return chain([g = std::decay_t<F>(std::forward<F>(f))](Try<T>&& t) mutable { return g(std::move(t)); }); }
    // func(T&&) -> U or Future<U>; an exception skips it
    template <class F> auto thenValue(F&& f) && { return chain([g = std::decay_t<F>(std::forward<F>(f))](Try<T>&& t) mutable { return g(std::move(t).value()); }); }
    // the old interface takes Try, value or nothing
    template <class F> auto then(F&& f) && {
        if constexpr (std::is_invocable<F, Try<T>&&>::value) return std::move(*this).thenTry(std::forward<F>(f));
        else if constexpr (std::is_invocable<F, T&&>::value) return std::move(*this).thenValue(std::forward<F>(f));
        else return chain([g = std::decay_t<F>(std::forward<F>(f))](Try<T>&& t) mutable { t.throwIfFailed(); return g(); });
    }
    template <class F> Future<T> thenError(F&& f) && { return chain([g = std::decay_t<F>(std::forward<F>(f))](Try<T>&& t) mutable -> T { if (t.hasException()) return g(std::move(t.exception())); return std::move(t).value(); }); }
    template <class F> Future<T> onError(F&& f) && { return std::move(*this).thenError(std::forward<F>(f)); }
    template <class F> Future<T> ensure(F&& f) && { return chain([g = std::decay_t<F>(std::forward<F>(f))](Try<T>&& t) mutable -> T { g(); return std::move(t).value(); }); }
private:
    template <class G> auto chain(G&& g) {
        using R0 = decltype(g(std::declval<Try<T>&&>()));
        using R = lift_unit_t<R0>;
        using V = lift_unit_t<typename futures::detail::IsFuture<R>::Inner>;
        auto next = std::make_shared<futures::detail::Core<V>>();
        next->ex = this->core().ex;
        this->setCallback_([next, h = std::move(g)](Executor::KeepAlive<>&&, Try<T>&& t) mutable {
            if constexpr (futures::detail::IsFuture<R>::value) {
                try {
                    auto inner = h(std::move(t));
                    inner.setCallback_([next](Executor::KeepAlive<>&&, Try<V>&& v) { next->setResult(std::move(v)); });
                } catch (...) { next->setResult(Try<V>(exception_wrapper(std::current_exception()))); }
            } else {
                next->setResult(makeTryWith([&]() -> decltype(h(std::move(t))) { return h(std::move(t)); }));
            }
        });
        return Future<V>(next);
    }
};

template <class T> SemiFuture<T>::SemiFuture(Future<T>&& f) : B(std::move(f.core_)) {}
template <class T> Future<T> SemiFuture<T>::via(Executor* e) && { this->core().ex = e; return Future<T>(std::move(this->core_)); }
template <class T> Future<T> SemiFuture<T>::toUnsafeFuture() && { return Future<T>(std::move(this->core_)); }
template <class T> Future<T> Promise<T>::getFuture() { if (!core_) throw PromiseInvalid(); if (got_) throw FutureAlreadyRetrieved(); got_ = true; return Future<T>(core_); }
template <class T> SemiFuture<T> Promise<T>::getSemiFuture() { if (!core_) throw PromiseInvalid(); if (got_) throw FutureAlreadyRetrieved(); got_ = true; return SemiFuture<T>(core_); }

template <class T> std::pair<Promise<T>, SemiFuture<T>> makePromiseContract() { Promise<T> p; auto f = p.getSemiFuture(); return {std::move(p), std::move(f)}; }
template <class T> Future<std::decay_t<T>> makeFuture(T&& v) { return Future<std::decay_t<T>>(std::forward<T>(v)); }
inline Future<Unit> makeFuture() { return Future<Unit>(Unit()); }
template <class T> Future<T> makeFuture(Try<T>&& t) { auto c = std::make_shared<futures::detail::Core<T>>(); c->setResult(std::move(t)); return Future<T>(c); }
template <class T> Future<T> makeFuture(exception_wrapper e) { return Future<T>(std::move(e)); }
template <class T> SemiFuture<std::decay_t<T>> makeSemiFuture(T&& v) { return SemiFuture<std::decay_t<T>>(std::forward<T>(v)); }

template <class F> auto via(Executor* e, F&& f) {
    return makeFuture().via(e).thenTry([g = std::decay_t<F>(std::forward<F>(f))](Try<Unit>&&) mutable { return g(); });
}
inline Future<Unit> via(Executor* e) { return makeFuture().via(e); }

template <class It> auto collectAll(It b, It e) {
    using T = typename std::iterator_traits<It>::value_type::value_type;
    struct Ctx { std::vector<Try<T>> r; std::atomic<size_t> left; Promise<std::vector<Try<T>>> p; };
    auto c = std::make_shared<Ctx>();
    c->r.resize(std::distance(b, e)); c->left = c->r.size() + 1;
    auto f = c->p.getSemiFuture();
    size_t i = 0;
    for (; b != e; ++b, ++i) b->setCallback_([c, i](Executor::KeepAlive<>&&, Try<T>&& t) { c->r[i] = std::move(t); if (--c->left == 0) c->p.setValue(std::move(c->r)); });
    if (--c->left == 0) c->p.setValue(std::move(c->r));
    return f;
}
template <class C> auto collectAll(C&& c) { return collectAll(c.begin(), c.end()); }
}
