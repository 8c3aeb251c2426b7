#pragma once
#include <cxxabi.h>
#include <exception>
#include <memory>
#include <string>
#include <typeinfo>
namespace folly {
inline std::string simDemangle(const char* n) { int s; char* p = abi::__cxa_demangle(n, nullptr, nullptr, &s); std::string r = p ? p : n; free(p); return r; }
class exception_wrapper {
public:
    exception_wrapper() = default;
    explicit exception_wrapper(std::exception_ptr p) : p_(p) { describe(); }
    template <class E, typename = std::enable_if_t<std::is_base_of<std::exception, std::decay_t<E>>::value>>
    exception_wrapper(E&& e) : p_(std::make_exception_ptr(std::decay_t<E>(std::forward<E>(e)))) { describe(); }  // NOLINT
    explicit operator bool() const { return (bool)p_; }
    bool has_exception_ptr() const { return (bool)p_; }
    std::string what() const { return what_; }
    std::string class_name() const { return cls_; }
    std::exception_ptr to_exception_ptr() const { return p_; }
    [[noreturn]] void throw_exception() const { std::rethrow_exception(p_); }
    template <class E> bool is_compatible_with() const { try { if (p_) std::rethrow_exception(p_); } catch (const E&) { return true; } catch (...) {} return false; }
private:
    void describe() {
        try { if (p_) std::rethrow_exception(p_); }
        catch (const std::exception& e) { cls_ = simDemangle(typeid(e).name()); what_ = cls_ + ": " + e.what(); }
        catch (...) { what_ = "unknown exception"; }
    }
    std::exception_ptr p_;
    std::string what_, cls_;
};
template <class E, class... A> exception_wrapper make_exception_wrapper(A&&... a) { return exception_wrapper(E(std::forward<A>(a)...)); }
}
