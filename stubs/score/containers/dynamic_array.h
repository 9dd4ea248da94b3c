// Minimal stand-in for score::containers::DynamicArray / NonRelocatableVector (score_baselibs is not part of the sandbox).
#pragma once
#include "score/utility.hpp"
#include "score/assert.hpp"
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <type_traits>
#include <utility>
namespace score::containers {
template <class Ptr> auto* symstub_raw(const Ptr& p) { if constexpr (std::is_pointer_v<Ptr>) { return p; } else { return p ? std::addressof(*p) : static_cast<decltype(std::addressof(*p))>(nullptr); } }
template <typename T, typename Allocator = std::allocator<T>> class DynamicArray {
 public:
  using value_type = T; using allocator_type = Allocator; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using reference = T&; using const_reference = const T&; using pointer = typename std::allocator_traits<Allocator>::pointer; using iterator = T*; using const_iterator = const T*;
  DynamicArray() : DynamicArray(0) {}
  explicit DynamicArray(size_type n, const Allocator& a = Allocator()) : a_(a), n_(n) { alloc(); for (size_type i = 0; i < n; i++) ::new (static_cast<void*>(data() + i)) T(); }
  DynamicArray(size_type n, const T& v, const Allocator& a = Allocator()) : a_(a), n_(n) { alloc(); for (size_type i = 0; i < n; i++) ::new (static_cast<void*>(data() + i)) T(v); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> DynamicArray(It b, It e, const Allocator& a = Allocator()) : a_(a), n_(static_cast<size_type>(std::distance(b, e))) { alloc(); T* p = data(); for (; b != e; ++b, ++p) ::new (static_cast<void*>(p)) T(*b); }
  DynamicArray(const DynamicArray& o) : a_(o.a_), n_(o.n_) { alloc(); for (size_type i = 0; i < n_; i++) ::new (static_cast<void*>(data() + i)) T(o[i]); }
  DynamicArray(DynamicArray&& o) noexcept : a_(o.a_), p_(o.p_), n_(o.n_) { o.p_ = nullptr; o.n_ = 0; }
  DynamicArray& operator=(DynamicArray&& o) noexcept { if (this != &o) { clear(); a_ = o.a_; p_ = o.p_; n_ = o.n_; o.p_ = nullptr; o.n_ = 0; } return *this; }
  DynamicArray& operator=(const DynamicArray&) = delete;
  ~DynamicArray() { clear(); }
  T& at(size_type i) { SYMSTUB_ASSERT_(i < n_); return data()[i]; } const T& at(size_type i) const { SYMSTUB_ASSERT_(i < n_); return data()[i]; }
  T& operator[](size_type i) { SYMSTUB_ASSERT_(i < n_); return data()[i]; } const T& operator[](size_type i) const { SYMSTUB_ASSERT_(i < n_); return data()[i]; }
  T& front() { return (*this)[0]; } T& back() { return (*this)[n_ - 1]; }
  T* data() { return n_ ? symstub_raw(p_) : nullptr; } const T* data() const { return n_ ? symstub_raw(p_) : nullptr; }
  iterator begin() { return data(); } iterator end() { return data() + n_; } const_iterator begin() const { return data(); } const_iterator end() const { return data() + n_; } const_iterator cbegin() const { return data(); } const_iterator cend() const { return data() + n_; }
  bool empty() const { return n_ == 0; } size_type size() const { return n_; }
 private:
  void alloc() { if (n_) p_ = std::allocator_traits<Allocator>::allocate(a_, n_); }
  void clear() { if (n_) { for (size_type i = 0; i < n_; i++) data()[i].~T(); std::allocator_traits<Allocator>::deallocate(a_, p_, n_); n_ = 0; } }
  Allocator a_; pointer p_{}; size_type n_{0};
};
template <typename T, typename Allocator = std::allocator<T>> class NonRelocatableVector {
 public:
  using value_type = T; using allocator_type = Allocator; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using reference = T&; using const_reference = const T&; using pointer = typename std::allocator_traits<Allocator>::pointer; using iterator = T*; using const_iterator = const T*;
  explicit NonRelocatableVector(size_type cap, const Allocator& a = Allocator()) : a_(a), cap_(cap) { if (cap_) p_ = std::allocator_traits<Allocator>::allocate(a_, cap_); }
  NonRelocatableVector(const NonRelocatableVector&) = delete; NonRelocatableVector& operator=(const NonRelocatableVector&) = delete;
  NonRelocatableVector(NonRelocatableVector&& o) noexcept : a_(o.a_), p_(o.p_), n_(o.n_), cap_(o.cap_) { o.p_ = nullptr; o.n_ = o.cap_ = 0; }
  ~NonRelocatableVector() { if (cap_) { for (size_type i = 0; i < n_; i++) data()[i].~T(); std::allocator_traits<Allocator>::deallocate(a_, p_, cap_); } }
  template <class... A> T& emplace_back(A&&... a) { SYMSTUB_ASSERT_(n_ < cap_); T* q = symstub_raw(p_) + n_; ::new (static_cast<void*>(q)) T(std::forward<A>(a)...); ++n_; return *q; }
  void push_back(const T& v) { emplace_back(v); } void push_back(T&& v) { emplace_back(std::move(v)); }
  T& at(size_type i) { SYMSTUB_ASSERT_(i < n_); return data()[i]; } const T& at(size_type i) const { SYMSTUB_ASSERT_(i < n_); return data()[i]; }
  T& operator[](size_type i) { return at(i); } const T& operator[](size_type i) const { return at(i); } T& front() { return at(0); } T& back() { return at(n_ - 1); } const T& back() const { return at(n_ - 1); }
  T* data() { return cap_ ? symstub_raw(p_) : nullptr; } const T* data() const { return cap_ ? symstub_raw(p_) : nullptr; }
  iterator begin() { return data(); } iterator end() { return data() + n_; } const_iterator begin() const { return data(); } const_iterator end() const { return data() + n_; } const_iterator cbegin() const { return data(); } const_iterator cend() const { return data() + n_; }
  bool empty() const { return n_ == 0; } size_type size() const { return n_; } size_type capacity() const { return cap_; }
 private: Allocator a_; pointer p_{}; size_type n_{0}; size_type cap_{0};
};
}
