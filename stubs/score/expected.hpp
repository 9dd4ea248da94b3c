#pragma once
#include "score/utility.hpp"
#include "score/assert.hpp"
#include "score/blank.hpp"
#include <optional>
#include <type_traits>
#include <utility>
namespace score::cpp {
template <class E> class unexpected { public: template <class U = E, std::enable_if_t<std::is_constructible_v<E, U> && !std::is_same_v<std::decay_t<U>, unexpected>, int> = 0> constexpr explicit unexpected(U&& e) : e_(std::forward<U>(e)) {} constexpr const E& error() const& { return e_; } constexpr E& error() & { return e_; } constexpr E&& error() && { return std::move(e_); } constexpr E& value() & { return e_; } constexpr const E& value() const& { return e_; } private: E e_; };
template <class E> unexpected(E) -> unexpected<E>;
template <class E> constexpr unexpected<std::decay_t<E>> make_unexpected(E&& e) { return unexpected<std::decay_t<E>>(std::forward<E>(e)); }
struct unexpect_t {}; inline constexpr unexpect_t unexpect{};
template <class T, class E> class expected;
template <class T> struct is_expected_t : std::false_type {}; template <class T, class E> struct is_expected_t<expected<T, E>> : std::true_type {}; template <class E> struct is_expected_t<unexpected<E>> : std::true_type {};
template <class T, class E> class expected {
 public:
  using value_type = T; using error_type = E; using unexpected_type = unexpected<E>;
  template <class U = T, std::enable_if_t<std::is_default_constructible_v<U>, int> = 0> expected() : v_(std::in_place) {}
  template <class U = T, std::enable_if_t<std::is_constructible_v<T, U&&> && (!is_expected_t<std::decay_t<U>>::value || (std::is_same_v<std::decay_t<U>, T> && !std::is_same_v<std::decay_t<U>, expected>)) && std::is_convertible_v<U&&, T> && !std::is_same_v<std::decay_t<U>, std::in_place_t>, int> = 0> expected(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <class U = T, std::enable_if_t<std::is_constructible_v<T, U&&> && !is_expected_t<std::decay_t<U>>::value && !std::is_convertible_v<U&&, T> && !std::is_same_v<std::decay_t<U>, std::in_place_t>, int> = 0, class = void> explicit expected(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <class G, std::enable_if_t<std::is_constructible_v<E, const G&>, int> = 0> expected(const unexpected<G>& u) : e_(std::in_place, u.error()) {}
  template <class G, std::enable_if_t<std::is_constructible_v<E, G&&>, int> = 0> expected(unexpected<G>&& u) : e_(std::in_place, std::move(u).error()) {}
  template <class U, class G, std::enable_if_t<!std::is_same_v<expected<U, G>, expected> && std::is_constructible_v<T, U&&> && std::is_constructible_v<E, G&&>, int> = 0> expected(expected<U, G>&& o) { if (o.has_value()) v_.emplace(std::move(*o)); else e_.emplace(std::move(o).error()); }
  template <class... A, std::enable_if_t<std::is_constructible_v<T, A...>, int> = 0> explicit expected(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  template <class... A> explicit expected(unexpect_t, A&&... a) : e_(std::in_place, std::forward<A>(a)...) {}
  bool has_value() const noexcept { return v_.has_value(); } explicit operator bool() const noexcept { return v_.has_value(); }
  T& value() & { SYMSTUB_ASSERT_(has_value()); return *v_; } const T& value() const& { SYMSTUB_ASSERT_(has_value()); return *v_; } T&& value() && { SYMSTUB_ASSERT_(has_value()); return std::move(*v_); }
  T& operator*() & { SYMSTUB_ASSERT_(has_value()); return *v_; } const T& operator*() const& { SYMSTUB_ASSERT_(has_value()); return *v_; } T&& operator*() && { SYMSTUB_ASSERT_(has_value()); return std::move(*v_); }
  T* operator->() { SYMSTUB_ASSERT_(has_value()); return &*v_; } const T* operator->() const { SYMSTUB_ASSERT_(has_value()); return &*v_; }
  E& error() & { SYMSTUB_ASSERT_(!has_value()); return *e_; } const E& error() const& { SYMSTUB_ASSERT_(!has_value()); return *e_; } E&& error() && { SYMSTUB_ASSERT_(!has_value()); return std::move(*e_); }
  template <class U> T value_or(U&& u) const& { return has_value() ? *v_ : static_cast<T>(std::forward<U>(u)); } template <class U> T value_or(U&& u) && { return has_value() ? std::move(*v_) : static_cast<T>(std::forward<U>(u)); }
  template <class... A> T& emplace(A&&... a) { e_.reset(); return v_.emplace(std::forward<A>(a)...); }
  template <class F> auto and_then(F&& f) const& { using R = std::decay_t<decltype(f(**this))>; if (has_value()) return R(f(*v_)); return R(unexpected<E>(*e_)); }
  template <class F> auto and_then(F&& f) && { using R = std::decay_t<decltype(f(std::move(*v_)))>; if (has_value()) return R(f(std::move(*v_))); return R(unexpected<E>(std::move(*e_))); }
  template <class F> auto transform(F&& f) const& { using R = expected<std::decay_t<decltype(f(**this))>, E>; if (has_value()) return R(f(*v_)); return R(unexpected<E>(*e_)); }
  template <class F> auto transform(F&& f) && { using R = expected<std::decay_t<decltype(f(std::move(*v_)))>, E>; if (has_value()) return R(f(std::move(*v_))); return R(unexpected<E>(std::move(*e_))); }
  template <class F> auto transform_error(F&& f) const& { using R = expected<T, std::decay_t<decltype(f(*e_))>>; if (has_value()) return R(*v_); return R(unexpected<std::decay_t<decltype(f(*e_))>>(f(*e_))); }
  template <class F> auto transform_error(F&& f) && { using R = expected<T, std::decay_t<decltype(f(std::move(*e_)))>>; if (has_value()) return R(std::move(*v_)); return R(unexpected<std::decay_t<decltype(f(std::move(*e_)))>>(f(std::move(*e_)))); }
  template <class F> expected or_else(F&& f) const& { if (has_value()) return *this; return f(*e_); }
  template <class F> expected or_else(F&& f) && { if (has_value()) return std::move(*this); return f(std::move(*e_)); }
  friend bool operator==(const expected& a, const expected& b) { if (a.has_value() != b.has_value()) return false; return a.has_value() ? *a.v_ == *b.v_ : *a.e_ == *b.e_; }
 private: std::optional<T> v_{}; std::optional<E> e_{};
};
template <class E> class expected<void, E> {
 public:
  using value_type = void; using error_type = E; expected() = default; template <class G> expected(const unexpected<G>& u) : e_(std::in_place, u.error()) {} template <class G> expected(unexpected<G>&& u) : e_(std::in_place, std::move(u).error()) {}
  expected(std::in_place_t) {}
  bool has_value() const noexcept { return !e_.has_value(); } explicit operator bool() const noexcept { return has_value(); } void value() const { SYMSTUB_ASSERT_(has_value()); } void operator*() const {}
  E& error() & { SYMSTUB_ASSERT_(!has_value()); return *e_; } const E& error() const& { SYMSTUB_ASSERT_(!has_value()); return *e_; } E&& error() && { SYMSTUB_ASSERT_(!has_value()); return std::move(*e_); }
  template <class F> auto and_then(F&& f) const& { using R = std::decay_t<decltype(f())>; if (has_value()) return R(f()); return R(unexpected<E>(*e_)); }
 private: std::optional<E> e_{};
};
template <class E> using expected_blank = expected<blank, E>;
}
