#pragma once
#include "score/utility.hpp"
#include "score/assert.hpp"
#include <array>
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <vector>
namespace score::cpp {
inline constexpr std::size_t dynamic_extent = static_cast<std::size_t>(-1);
template <class T, std::size_t Ext = dynamic_extent> class span {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using size_type = std::size_t; using index_type = std::ptrdiff_t; using difference_type = std::ptrdiff_t; using pointer = T*; using const_pointer = const T*; using reference = T&; using iterator = T*; using const_iterator = const T*; using reverse_iterator = std::reverse_iterator<T*>;
  constexpr span() noexcept = default;
  template <class N, std::enable_if_t<std::is_integral_v<N>, int> = 0> constexpr span(T* p, N n) noexcept : p_(p), n_(static_cast<std::size_t>(n)) {}
  constexpr span(T* b, T* e) noexcept : p_(b), n_(static_cast<std::size_t>(e - b)) {}
  template <std::size_t N> constexpr span(T (&a)[N]) noexcept : p_(a), n_(N) {}
  template <class U, std::size_t N, std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>, int> = 0> constexpr span(std::array<U, N>& a) noexcept : p_(a.data()), n_(N) {}
  template <class U, std::size_t N, std::enable_if_t<std::is_convertible_v<const U (*)[], T (*)[]>, int> = 0> constexpr span(const std::array<U, N>& a) noexcept : p_(a.data()), n_(N) {}
  template <class U, std::size_t E2, std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>, int> = 0> constexpr span(const span<U, E2>& o) noexcept : p_(o.data()), n_(o.size()) {}
  template <class C, class = std::enable_if_t<!std::is_array_v<std::remove_reference_t<C>> && std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<C&>().data())> (*)[], T (*)[]>>, class = decltype(std::declval<C&>().size())> constexpr span(C& c) noexcept : p_(c.data()), n_(c.size()) {}
  template <class C, class = std::enable_if_t<!std::is_array_v<C> && std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<const C&>().data())> (*)[], T (*)[]>>, class = decltype(std::declval<const C&>().size()), class = void> constexpr span(const C& c) noexcept : p_(c.data()), n_(c.size()) {}
  constexpr T* data() const noexcept { return p_; } constexpr std::size_t size() const noexcept { return n_; } constexpr std::size_t size_bytes() const noexcept { return n_ * sizeof(T); } constexpr bool empty() const noexcept { return n_ == 0; }
  constexpr T& operator[](std::size_t i) const { SYMSTUB_ASSERT_(i < n_); return p_[i]; } constexpr T& at(std::size_t i) const { SYMSTUB_ASSERT_(i < n_); return p_[i]; }
  constexpr T& operator()(std::size_t i) const { return (*this)[i]; }
  constexpr T& front() const { return (*this)[0]; } constexpr T& back() const { return (*this)[n_ - 1]; }
  constexpr T* begin() const noexcept { return p_; } constexpr T* end() const noexcept { return p_ + n_; } constexpr const T* cbegin() const noexcept { return p_; } constexpr const T* cend() const noexcept { return p_ + n_; }
  constexpr reverse_iterator rbegin() const noexcept { return reverse_iterator(end()); } constexpr reverse_iterator rend() const noexcept { return reverse_iterator(begin()); }
  constexpr span first(std::size_t n) const { SYMSTUB_ASSERT_(n <= n_); return span(p_, n); } constexpr span last(std::size_t n) const { SYMSTUB_ASSERT_(n <= n_); return span(p_ + (n_ - n), n); }
  constexpr span subspan(std::size_t o, std::size_t n = dynamic_extent) const { SYMSTUB_ASSERT_(o <= n_); if (n == dynamic_extent) n = n_ - o; SYMSTUB_ASSERT_(o + n <= n_); return span(p_ + o, n); }
 private: T* p_{nullptr}; std::size_t n_{0};
};
template <class T, std::size_t N> span(T (&)[N]) -> span<T>; template <class T, std::size_t N> span(std::array<T, N>&) -> span<T>; template <class T, std::size_t N> span(const std::array<T, N>&) -> span<const T>;
template <class C> span(C&) -> span<std::remove_pointer_t<decltype(std::declval<C&>().data())>>;
template <class T, class N> span(T*, N) -> span<T>;
template <class C, class I> constexpr decltype(auto) at(C& c, I i) { SYMSTUB_ASSERT_(i >= 0 && static_cast<std::size_t>(i) < c.size()); return c[static_cast<std::size_t>(i)]; }
template <class T> span<const std::byte> as_bytes(span<T> s) noexcept { return {reinterpret_cast<const std::byte*>(s.data()), s.size_bytes()}; }
template <class T> span<std::byte> as_writable_bytes(span<T> s) noexcept { return {reinterpret_cast<std::byte*>(s.data()), s.size_bytes()}; }
}
