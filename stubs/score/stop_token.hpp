#pragma once
#include <functional>
#include <memory>
#include <utility>
#include <vector>
#include <atomic>
namespace score { namespace cpp {
namespace stub { struct StopCb { std::function<void()> f; }; struct StopState { std::atomic<bool> req{false}; std::vector<StopCb*> cbs; }; }
struct nostopstate_t { explicit nostopstate_t() = default; }; constexpr nostopstate_t nostopstate{};
class stop_token {
 public:
  stop_token() noexcept = default;
  bool stop_requested() const noexcept { return s_ && s_->req.load(); } bool stop_possible() const noexcept { return s_ != nullptr; }
  friend bool operator==(const stop_token& a, const stop_token& b) noexcept { return a.s_ == b.s_; }
  explicit stop_token(std::shared_ptr<stub::StopState> s) : s_{std::move(s)} {}
  std::shared_ptr<stub::StopState> s_;
};
class stop_source {
 public:
  stop_source() : s_{std::make_shared<stub::StopState>()} {} explicit stop_source(nostopstate_t) noexcept {}
  bool request_stop() noexcept { if (!s_ || s_->req.exchange(true)) return false; auto c = s_->cbs; for (auto* x : c) if (x->f) x->f(); return true; }
  bool stop_requested() const noexcept { return s_ && s_->req.load(); } bool stop_possible() const noexcept { return s_ != nullptr; }
  stop_token get_token() const noexcept { return stop_token{s_}; }
 private:
  std::shared_ptr<stub::StopState> s_;
};
class stop_callback {
 public:
  template <class F> stop_callback(const stop_token& t, F&& f) : s_{t.s_}, c_{new stub::StopCb{std::function<void()>(std::forward<F>(f))}} { if (s_) { if (s_->req.load()) c_->f(); else s_->cbs.push_back(c_.get()); } }
  stop_callback(const stop_callback&) = delete;
  ~stop_callback() { if (s_) for (auto i = s_->cbs.begin(); i != s_->cbs.end(); ++i) if (*i == c_.get()) { s_->cbs.erase(i); break; } }
 private:
  std::shared_ptr<stub::StopState> s_; std::unique_ptr<stub::StopCb> c_;
};
} }
