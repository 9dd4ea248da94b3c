#pragma once
#include "score/utility.hpp"
#include "score/assert.hpp"
#include <cstddef>
#include <cstdint>
#include <memory>
#include <type_traits>
#include <utility>
namespace score::cpp {
// move-only type-erased callable (capacity of the original is not modelled)
template <class Sig, std::size_t Cap = 32, std::size_t Al = alignof(std::max_align_t)> class callback;
template <class R, class... A, std::size_t Cap, std::size_t Al> class callback<R(A...), Cap, Al> {
  struct Base { virtual ~Base() = default; virtual R call(A...) = 0; }; template <class F> struct Impl final : Base { F f; explicit Impl(F&& g) : f(std::move(g)) {} explicit Impl(const F& g) : f(g) {} R call(A... a) override { if constexpr (std::is_void_v<R>) { f(std::forward<A>(a)...); } else { return f(std::forward<A>(a)...); } } };
 public:
  using alignment_t = std::integral_constant<std::size_t, Al>; using capacity_t = std::integral_constant<std::size_t, Cap>;
  callback() noexcept = default; callback(std::nullptr_t) noexcept {} callback(callback&&) noexcept = default; callback& operator=(callback&&) noexcept = default; callback(const callback&) = delete; callback& operator=(const callback&) = delete;
  template <class F, std::enable_if_t<!std::is_same_v<std::decay_t<F>, callback> && std::is_invocable_v<std::decay_t<F>&, A...>, int> = 0> callback(F&& f) : p_(new Impl<std::decay_t<F>>(std::forward<F>(f))) {}
  callback& operator=(std::nullptr_t) noexcept { p_.reset(); return *this; }
  R operator()(A... a) const { SYMSTUB_ASSERT_(p_ != nullptr); return p_->call(std::forward<A>(a)...); } bool empty() const noexcept { return !p_; } explicit operator bool() const noexcept { return static_cast<bool>(p_); }
  friend bool operator==(const callback& c, std::nullptr_t) noexcept { return c.empty(); } friend bool operator!=(const callback& c, std::nullptr_t) noexcept { return !c.empty(); }
 private: std::unique_ptr<Base> p_;
};
template <class Sig> using move_only_function = callback<Sig>;
}
