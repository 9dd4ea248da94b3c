#pragma once
#include "score/result/result.h"
#include <atomic>
#include <limits>
#include <optional>
namespace score { namespace safe_atomics {
enum class StubErr : result::ErrorCode { kOverflow };
template <class T> score::Result<T> TryAtomicAdd(std::atomic<T>& a, const T d, const std::size_t max_retries = 10) noexcept {
  for (std::size_t i = 0; i < max_retries; ++i) { T c = a.load(); if (c > static_cast<T>(std::numeric_limits<T>::max() - d)) break; if (a.compare_exchange_strong(c, static_cast<T>(c + d))) return c; }
  return score::MakeUnexpected<T>(score::result::stub_error());
}
} }
