// Stand-in: single-threaded future/promise pair.
#pragma once
#include "score/result/result.h"
#include "score/stop_token.hpp"
#include "score/callback.hpp"
#include <memory>
#include <optional>
namespace score { namespace concurrency {
enum class Error : score::result::ErrorCode { kUnset, kStopRequested, kTimeout, kPromiseBroken, kPromiseAlreadyRetrieved, kNoState, kFutureAlreadyRetrieved };
namespace stub { template <class T> struct FS { std::optional<score::Result<T>> v; bool retrieved{false}; bool broken{false}; std::function<void(score::Result<T>&)> then; }; }
template <class T> class InterruptibleFuture {
 public:
  InterruptibleFuture() = default; explicit InterruptibleFuture(std::shared_ptr<stub::FS<T>> s) : s_{std::move(s)} {}
  InterruptibleFuture(InterruptibleFuture&&) = default; InterruptibleFuture& operator=(InterruptibleFuture&&) = default;
  bool Valid() const noexcept { return s_ != nullptr; }
  bool stub_ready() const { return s_ && s_->v.has_value(); }
  score::Result<T> Get(const score::cpp::stop_token&) { if (s_ && s_->v) { auto r = std::move(*s_->v); s_.reset(); return r; } return score::MakeUnexpected<T>(score::result::stub_error()); }
 private:
  std::shared_ptr<stub::FS<T>> s_;
};
} }
