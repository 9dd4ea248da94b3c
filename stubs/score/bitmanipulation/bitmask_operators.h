#pragma once
#include <type_traits>
namespace score {
template <class E> struct enable_bitmask_operators : std::false_type {};
template <class E, std::enable_if_t<enable_bitmask_operators<E>::value, int> = 0> constexpr E operator|(E a, E b) { using U = std::underlying_type_t<E>; return static_cast<E>(static_cast<U>(a) | static_cast<U>(b)); }
template <class E, std::enable_if_t<enable_bitmask_operators<E>::value, int> = 0> constexpr E operator&(E a, E b) { using U = std::underlying_type_t<E>; return static_cast<E>(static_cast<U>(a) & static_cast<U>(b)); }
}
