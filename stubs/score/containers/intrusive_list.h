// Stand-in: intrusive doubly linked list.
#pragma once
#include <algorithm>
#include <cstddef>
#include <iterator>
namespace score { namespace containers {
template <class Tag, class El> class stub_list;
template <class Tag = void> class intrusive_list_element {
 public:
  intrusive_list_element() = default; intrusive_list_element(const intrusive_list_element&) : n{nullptr}, p{nullptr} {} intrusive_list_element& operator=(const intrusive_list_element&) { return *this; }
  intrusive_list_element* n{nullptr}; intrusive_list_element* p{nullptr};
};
template <class T, class Tag = void> class intrusive_list {
  using E = intrusive_list_element<Tag>;
 public:
  template <class U> class it { public: using iterator_category = std::bidirectional_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = U*; using reference = U&;
    it() = default; explicit it(E* e) : e_{e} {} U& operator*() const { return static_cast<U&>(*static_cast<T*>(e_)); } U* operator->() const { return static_cast<T*>(e_); } it& operator++() { e_ = e_->n; return *this; } it operator++(int) { it r{*this}; e_ = e_->n; return r; } it& operator--() { e_ = e_->p; return *this; }
    friend bool operator==(const it& a, const it& b) { return a.e_ == b.e_; } friend bool operator!=(const it& a, const it& b) { return a.e_ != b.e_; } E* e_{nullptr}; };
  using iterator = it<T>; using const_iterator = it<const T>;
  intrusive_list() { h_.n = h_.p = &h_; } intrusive_list(const intrusive_list&) = delete; intrusive_list& operator=(const intrusive_list&) = delete;
  iterator begin() { return iterator{h_.n}; } iterator end() { return iterator{&h_}; } const_iterator begin() const { return const_iterator{h_.n}; } const_iterator end() const { return const_iterator{const_cast<E*>(&h_)}; } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  bool empty() const { return h_.n == &h_; } std::size_t size() const { std::size_t k = 0; for (const E* e = h_.n; e != &h_; e = e->n) ++k; return k; }
  T& front() { return static_cast<T&>(*h_.n); } const T& front() const { return static_cast<const T&>(*h_.n); } T& back() { return static_cast<T&>(*h_.p); }
  iterator insert(iterator pos, T& t) { E* x = &static_cast<E&>(t); E* a = pos.e_; x->n = a; x->p = a->p; a->p->n = x; a->p = x; return iterator{x}; }
  void push_back(T& t) { insert(end(), t); } void push_front(T& t) { insert(begin(), t); }
  iterator erase(iterator pos) { E* x = pos.e_; E* r = x->n; x->p->n = x->n; x->n->p = x->p; x->n = x->p = nullptr; return iterator{r}; }
  void pop_front() { erase(begin()); } void pop_back() { erase(iterator{h_.p}); } void clear() { while (!empty()) pop_front(); }
  template <class I> void assign(I b, I e) { clear(); for (; b != e; ++b) push_back(*b); }
  template <class P, class D> void remove_and_dispose_if(P&& p, D&& d) { for (iterator i = begin(); i != end();) { T& t = *i; if (p(static_cast<const T&>(t))) { i = erase(i); d(&t); } else ++i; } }
  template <class P> void remove_if(P&& p) { for (iterator i = begin(); i != end();) { if (p(*i)) i = erase(i); else ++i; } }
  iterator iterator_to(T& t) { return iterator{&static_cast<E&>(t)}; }
  void splice(iterator pos, intrusive_list& o) { while (!o.empty()) { T& t = o.front(); o.pop_front(); insert(pos, t); } }
  void splice(iterator pos, intrusive_list&, iterator i) { T& t = *i; erase(i); insert(pos, t); }
 private:
  E h_;
};
} }
