// Stand-in: a scope; functions bound to it become no-ops once it expired, and expiring waits for running calls.
#pragma once
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>
namespace score { namespace safecpp {
namespace stub {
#ifdef SCOPE_RW
using ScopeMutex = std::shared_mutex; using CallLock = std::shared_lock<ScopeMutex>; // calls may overlap; expiring inside a call never ends
#else
using ScopeMutex = std::recursive_mutex; using CallLock = std::lock_guard<ScopeMutex>;
#endif
struct ScopeState { ScopeMutex m; bool expired{false}; }; }
template <typename StatePolicy = void> class Scope {
 public:
  Scope() : s_{std::make_shared<stub::ScopeState>()} {}
  Scope(const Scope&) = delete; Scope& operator=(const Scope&) = delete;
  Scope(Scope&& o) noexcept : s_{std::move(o.s_)} { o.s_.reset(); }
  Scope& operator=(Scope&& o) noexcept { if (this != &o) { Expire(); s_ = std::move(o.s_); o.s_.reset(); } return *this; }
  ~Scope() { Expire(); }
  void Expire() noexcept { if (s_) { std::lock_guard<stub::ScopeMutex> l{s_->m}; s_->expired = true; } }
  const std::shared_ptr<stub::ScopeState>& stub_state() const { return s_; }
 private:
  std::shared_ptr<stub::ScopeState> s_;
};
} }
