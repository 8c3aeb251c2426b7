#pragma once
#include <type_traits>
namespace folly {
struct Unit {
    constexpr bool operator==(const Unit&) const { return true; }
    constexpr bool operator!=(const Unit&) const { return false; }
    template <class T> struct LiftT { using type = T; };
    template <class T> using Lift = std::conditional<std::is_same<T, void>::value, Unit, T>;
};
constexpr Unit unit{};
template <class T> struct lift_unit { using type = T; };
template <> struct lift_unit<void> { using type = Unit; };
template <class T> using lift_unit_t = typename lift_unit<T>::type;
}
