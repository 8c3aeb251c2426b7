// What generated thrift types need (stand-in).
#pragma once
#include <stdexcept>
#include <string>
#include <utility>
namespace apache { namespace thrift {
template <class E> struct TEnumTraits;
struct bad_field_access : std::runtime_error { bad_field_access() : std::runtime_error("accessing an optional field that is not set") {} };
[[noreturn]] inline void bad_union_field() { throw std::runtime_error("bad union field access"); }
template <class T>
class field_ref {
    T& v_; bool& set_;
public:
    field_ref(T& v, bool& s) : v_(v), set_(s) {}
    T& operator*() const { return v_; }
    T* operator->() const { return &v_; }
    T& value() const { return v_; }
    bool is_set() const { return set_; }
    template <class U> const field_ref& operator=(U&& u) const { v_ = std::forward<U>(u); set_ = true; return *this; }
    template <class... A> T& emplace(A&&... a) const { v_ = T(std::forward<A>(a)...); set_ = true; return v_; }
};
template <class T>
class optional_field_ref {
    T& v_; bool& set_;
public:
    optional_field_ref(T& v, bool& s) : v_(v), set_(s) {}
    bool has_value() const { return set_; }
    explicit operator bool() const { return set_; }
    T& value() const { if (!set_) throw bad_field_access(); return v_; }
    T& operator*() const { return value(); }
    T* operator->() const { return &value(); }
    template <class U> std::remove_const_t<T> value_or(U&& d) const { return set_ ? v_ : static_cast<std::remove_const_t<T>>(std::forward<U>(d)); }
    template <class U> const optional_field_ref& operator=(U&& u) const { v_ = std::forward<U>(u); set_ = true; return *this; }
    template <class... A> T& emplace(A&&... a) const { v_ = T(std::forward<A>(a)...); set_ = true; return v_; }
    void reset() const { v_ = T(); set_ = false; }
};
} }
