#pragma once
#include <cstddef>
#include <exception>
#include <initializer_list>
#include <new>
#include <utility>
namespace score { namespace cpp {
template <class T, std::size_t N> class static_vector {
 public:
  using value_type = T; using iterator = T*; using const_iterator = const T*; using size_type = std::size_t;
  static_vector() = default;
  static_vector(std::initializer_list<T> l) { for (auto& x : l) push_back(x); }
  static_vector(const static_vector& o) { for (auto& x : o) push_back(x); }
  static_vector(static_vector&& o) { for (auto& x : o) push_back(std::move(x)); o.clear(); }
  static_vector& operator=(const static_vector& o) { if (this != &o) { clear(); for (auto& x : o) push_back(x); } return *this; }
  ~static_vector() { clear(); }
  template <class... A> T& emplace_back(A&&... a) { if (n_ >= N) std::terminate(); T* p = new (static_cast<void*>(data() + n_)) T(std::forward<A>(a)...); ++n_; return *p; }
  void push_back(const T& t) { emplace_back(t); }
  void push_back(T&& t) { emplace_back(std::move(t)); }
  void clear() { while (n_ > 0) { --n_; data()[n_].~T(); } }
  T* data() { return reinterpret_cast<T*>(b_); } const T* data() const { return reinterpret_cast<const T*>(b_); }
  T* begin() { return data(); } T* end() { return data() + n_; } const T* begin() const { return data(); } const T* end() const { return data() + n_; } const T* cbegin() const { return data(); } const T* cend() const { return data() + n_; }
  std::size_t size() const { return n_; } bool empty() const { return n_ == 0; } static constexpr std::size_t capacity() { return N; } static constexpr std::size_t max_size() { return N; }
  T& operator[](std::size_t i) { return data()[i]; } const T& operator[](std::size_t i) const { return data()[i]; } T& back() { return data()[n_ - 1]; } T& front() { return data()[0]; }
 private:
  alignas(T) unsigned char b_[sizeof(T) * N]; std::size_t n_{0};
};
} }
