#pragma once
#include <utility>
namespace folly { namespace detail {
template <class F> struct ScopeExit { F f; bool on = true; explicit ScopeExit(F&& g) : f(std::move(g)) {} ScopeExit(ScopeExit&& o) : f(std::move(o.f)), on(o.on) { o.on = false; } ~ScopeExit() { if (on) f(); } void dismiss() { on = false; } };
struct ScopeTag {};
template <class F> ScopeExit<F> operator+(ScopeTag, F&& f) { return ScopeExit<F>(std::move(f)); }
} template <class F> detail::ScopeExit<F> makeGuard(F f) { return detail::ScopeExit<F>(std::move(f)); } }
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SCOPE_EXIT auto SIM_CAT(scopeExit_, __COUNTER__) = ::folly::detail::ScopeTag() + [&]() noexcept
