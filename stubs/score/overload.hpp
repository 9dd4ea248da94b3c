#pragma once
#include "score/utility.hpp"
#include <utility>
#include <variant>
namespace score::cpp {
template <class... F> struct overload_t : F... { using F::operator()...; };
template <class... F> overload_t(F...) -> overload_t<F...>;
template <class... F> constexpr auto overload(F... f) { return overload_t<F...>{std::move(f)...}; }
template <class Visitor, class... V> constexpr decltype(auto) visit(Visitor&& vis, V&&... v) { return std::visit(std::forward<Visitor>(vis), std::forward<V>(v)...); }
}
