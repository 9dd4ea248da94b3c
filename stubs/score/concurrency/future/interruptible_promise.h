#pragma once
#include "score/concurrency/future/interruptible_future.h"
namespace score { namespace concurrency {
template <class T> class InterruptiblePromise {
 public:
  InterruptiblePromise() : s_{std::make_shared<stub::FS<T>>()} {}
  InterruptiblePromise(InterruptiblePromise&&) = default; InterruptiblePromise& operator=(InterruptiblePromise&&) = default;
  score::Result<InterruptibleFuture<T>> GetInterruptibleFuture() { if (!s_ || s_->retrieved) return score::MakeUnexpected<InterruptibleFuture<T>>(score::result::stub_error()); s_->retrieved = true; return InterruptibleFuture<T>{s_}; }
  score::Result<void> SetValue(T v) { if (!s_ || s_->v) return score::MakeUnexpected<void>(score::result::stub_error()); s_->v.emplace(std::move(v)); return {}; }
  score::Result<void> SetError(score::result::Error e) { if (!s_ || s_->v) return score::MakeUnexpected<void>(score::result::stub_error()); s_->v.emplace(score::cpp::make_unexpected(e)); return {}; }
  template <class F> void OnAbort(F&&) {}
 private:
  std::shared_ptr<stub::FS<T>> s_;
};
} }
