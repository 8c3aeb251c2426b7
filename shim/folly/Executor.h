#pragma once
#include <functional>
#include <memory>
namespace folly {
// A move-only callable, as folly::Function
class Func {
    struct B { virtual ~B() {} virtual void call() = 0; };
    template <class F> struct D : B { F f; explicit D(F&& g) : f(std::move(g)) {} void call() override { f(); } };
    std::unique_ptr<B> p_;
public:
    Func() = default;
    template <class F, typename = std::enable_if_t<!std::is_same<std::decay_t<F>, Func>::value>>
    Func(F f) : p_(new D<F>(std::move(f))) {}  // NOLINT
    Func(Func&&) = default;
    Func& operator=(Func&&) = default;
    void operator()() { p_->call(); }
    explicit operator bool() const { return (bool)p_; }
};
class Executor {
public:
    virtual ~Executor() = default;
    virtual void add(Func f) = 0;
    template <class E = Executor> struct KeepAlive { E* e = nullptr; KeepAlive() = default; KeepAlive(E* x) : e(x) {} E* get() const { return e; } explicit operator bool() const { return e; } E* operator->() const { return e; } E* copy() const { return e; } };
};
class InlineExecutor : public Executor {
public:
    static InlineExecutor& instance() { static InlineExecutor* e = new InlineExecutor(); return *e; }
    void add(Func f) override { f(); }
};
}
