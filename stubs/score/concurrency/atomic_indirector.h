#pragma once
#include "score/utility.hpp"
#include <atomic>
namespace score::concurrency {
template <class T> class AtomicIndirectorReal {
 public:
  static T fetch_add(std::atomic<T>& a, const T v, const std::memory_order o) noexcept { return a.fetch_add(v, o); }
  static T fetch_sub(std::atomic<T>& a, const T v, const std::memory_order o) noexcept { return a.fetch_sub(v, o); }
  static T load(const std::atomic<T>& a, const std::memory_order o) noexcept { return a.load(o); }
  static void store(std::atomic<T>& a, const T v, const std::memory_order o) noexcept { a.store(v, o); }
  static T exchange(std::atomic<T>& a, const T v, const std::memory_order o) noexcept { return a.exchange(v, o); }
  static bool compare_exchange_weak(std::atomic<T>& a, T& e, const T d, const std::memory_order o) noexcept { return a.compare_exchange_weak(e, d, o); }
  static bool compare_exchange_strong(std::atomic<T>& a, T& e, const T d, const std::memory_order o) noexcept { return a.compare_exchange_strong(e, d, o); }
  static bool compare_exchange_weak(std::atomic<T>& a, T& e, const T d, const std::memory_order o, const std::memory_order f) noexcept { return a.compare_exchange_weak(e, d, o, f); }
  static bool compare_exchange_strong(std::atomic<T>& a, T& e, const T d, const std::memory_order o, const std::memory_order f) noexcept { return a.compare_exchange_strong(e, d, o, f); }
};
template <class T> class AtomicIndirectorMock : public AtomicIndirectorReal<T> {};
}
