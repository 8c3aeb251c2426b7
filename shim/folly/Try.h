#pragma once
#include <optional>
#include <stdexcept>
#include <utility>
#include <folly/ExceptionWrapper.h>
#include <folly/Unit.h>
namespace folly {
struct TryException : std::logic_error { using std::logic_error::logic_error; };
struct UsingUninitializedTry : TryException { UsingUninitializedTry() : TryException("Using uninitialized try") {} };
template <class T>
class Try {
public:
    using element_type = T;
    Try() = default;
    explicit Try(const T& v) : v_(v) {}
    explicit Try(T&& v) : v_(std::move(v)) {}
    explicit Try(exception_wrapper e) : e_(std::move(e)) {}
    template <class U = T, typename = std::enable_if_t<std::is_same<U, Unit>::value>>
    explicit Try(int, U* = nullptr) : v_(Unit()) {}
    Try(Try&&) = default;
    Try(const Try&) = default;
    // like folly's: needs only construction from the element, not assignment
    Try& operator=(Try&& o) { if (this != &o) { v_.reset(); if (o.v_) v_.emplace(std::move(*o.v_)); e_ = std::move(o.e_); } return *this; }
    Try& operator=(const Try& o) { if (this != &o) { v_.reset(); if (o.v_) v_.emplace(*o.v_); e_ = o.e_; } return *this; }
    bool hasValue() const { return v_.has_value(); }
    bool hasException() const { return (bool)e_; }
    template <class E> bool hasException() const { return e_ && e_.template is_compatible_with<E>(); }
    T& value() & { check(); return *v_; }
    const T& value() const & { check(); return *v_; }
    T&& value() && { check(); return std::move(*v_); }
    T& operator*() & { return value(); }
    T* operator->() { return &value(); }
    exception_wrapper& exception() & { return e_; }
    const exception_wrapper& exception() const & { return e_; }
    void throwIfFailed() const { check(); }
private:
    void check() const { if (v_) return; if (e_) e_.throw_exception(); throw UsingUninitializedTry(); }
    std::optional<T> v_;
    exception_wrapper e_;
};
template <class F> auto makeTryWith(F&& f) {
    using R = lift_unit_t<std::decay_t<decltype(f())>>;
    try {
        if constexpr (std::is_void<decltype(f())>::value) { f(); return Try<R>(Unit()); }
        else return Try<R>(f());
    } catch (...) { return Try<R>(exception_wrapper(std::current_exception())); }
}
}
