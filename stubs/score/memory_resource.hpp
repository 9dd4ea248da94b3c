#pragma once
#include "score/utility.hpp"
#include "score/assert.hpp"
#include <cstddef>
#include <memory>
#include <memory_resource>
#include <new>
#include <utility>
#include <vector>
namespace score::cpp::pmr {
class memory_resource { public: virtual ~memory_resource() = default; void* allocate(std::size_t b, std::size_t a = alignof(std::max_align_t)) { return do_allocate(b, a); } void deallocate(void* p, std::size_t b, std::size_t a = alignof(std::max_align_t)) { do_deallocate(p, b, a); } bool is_equal(const memory_resource& o) const noexcept { return do_is_equal(o); } friend bool operator==(const memory_resource& a, const memory_resource& b) noexcept { return &a == &b || a.is_equal(b); }
 protected: virtual void* do_allocate(std::size_t, std::size_t) = 0; virtual void do_deallocate(void*, std::size_t, std::size_t) = 0; virtual bool do_is_equal(const memory_resource&) const noexcept = 0; };
class SymNewDelete final : public memory_resource { void* do_allocate(std::size_t b, std::size_t) override { return ::operator new(b); } void do_deallocate(void* p, std::size_t, std::size_t) override { ::operator delete(p); } bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; } };
inline memory_resource* new_delete_resource() noexcept { static SymNewDelete r; return &r; } inline memory_resource* get_default_resource() noexcept { return new_delete_resource(); }
template <class T = std::byte> class polymorphic_allocator { public: using value_type = T; polymorphic_allocator() noexcept : r_(get_default_resource()) {} polymorphic_allocator(memory_resource* r) noexcept : r_(r) {} template <class U> polymorphic_allocator(const polymorphic_allocator<U>& o) noexcept : r_(o.resource()) {} T* allocate(std::size_t n) { return static_cast<T*>(r_->allocate(n * sizeof(T), alignof(T))); } void deallocate(T* p, std::size_t n) { r_->deallocate(p, n * sizeof(T), alignof(T)); } template <class U, class... A> void construct(U* p, A&&... a) { if constexpr (std::uses_allocator_v<U, polymorphic_allocator> && std::is_constructible_v<U, A..., polymorphic_allocator<U>>) ::new (static_cast<void*>(p)) U(std::forward<A>(a)..., polymorphic_allocator<U>(r_)); else ::new (static_cast<void*>(p)) U(std::forward<A>(a)...); } memory_resource* resource() const noexcept { return r_; } friend bool operator==(const polymorphic_allocator& a, const polymorphic_allocator& b) { return a.r_ == b.r_; } friend bool operator!=(const polymorphic_allocator& a, const polymorphic_allocator& b) { return a.r_ != b.r_; } private: memory_resource* r_; };
template <class T> struct SymDeleter { memory_resource* r{nullptr}; std::size_t sz{0}; std::size_t al{1}; SymDeleter() = default; SymDeleter(memory_resource* rr, std::size_t s, std::size_t a) : r(rr), sz(s), al(a) {} template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> SymDeleter(const SymDeleter<U>& o) : r(o.r), sz(o.sz), al(o.al) {} void operator()(T* p) { if (p) { void* q = p; if constexpr (std::is_polymorphic_v<T>) q = dynamic_cast<void*>(p); p->~T(); if (r) r->deallocate(q, sz, al); } } };
template <class T> using unique_ptr = std::unique_ptr<T, SymDeleter<T>>;
template <class T, class... A> unique_ptr<T> make_unique(memory_resource* r, A&&... a) { void* p = r->allocate(sizeof(T), alignof(T)); return unique_ptr<T>(::new (p) T(std::forward<A>(a)...), SymDeleter<T>(r, sizeof(T), alignof(T))); }
template <class T, class... A> std::shared_ptr<T> make_shared(memory_resource* r, A&&... a) { return std::allocate_shared<T>(polymorphic_allocator<T>(r), std::forward<A>(a)...); }
template <class T> using vector = std::vector<T, polymorphic_allocator<T>>;
}
