// Stand-in: a task executor that records submitted work; the harness decides when each task runs.
#pragma once
#include "score/callback.hpp"
#include "score/memory.hpp"
#include "score/memory_resource.hpp"
#include "score/result/result.h"
#include "score/stop_token.hpp"
#include <cstddef>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace score { namespace concurrency {
class Task { public: virtual ~Task() = default; virtual void operator()(const score::cpp::stop_token) noexcept = 0; };
namespace stub { template <class F> struct FnTask : Task { F f; template <class G> explicit FnTask(G&& g) : f(std::forward<G>(g)) {} void operator()(const score::cpp::stop_token t) noexcept override { (void)f(t); } }; }
template <class R = void> class TaskResult {
 public:
  TaskResult() = default;
  explicit TaskResult(score::cpp::stop_source s) : s_{std::move(s)} {}
  void Abort() noexcept { s_.request_stop(); }
  bool Valid() const noexcept { return true; }
  score::Result<void> Get() const noexcept { return {}; } score::Result<void> Wait() const noexcept { return {}; }
 private:
  score::cpp::stop_source s_{};
};
class Executor {
 public:
  virtual ~Executor() = default;
  virtual std::size_t MaxConcurrencyLevel() const noexcept { return 1; }
  virtual bool ShutdownRequested() const noexcept { return false; }
  virtual void Shutdown() noexcept {}
  virtual void Enqueue(std::shared_ptr<Task> t) { stub_enqueue(std::move(t), score::cpp::stop_source{}); }
  template <class F, class... A> TaskResult<void> Submit(F&& f, A... a) { score::cpp::stop_source s{}; auto g = [f = std::forward<F>(f), a...](score::cpp::stop_token t) mutable { (void)f(t, a...); }; stub_enqueue(std::make_shared<stub::FnTask<decltype(g)>>(std::move(g)), s); return TaskResult<void>{s}; }
  template <class F, class... A> void Post(F&& f, A... a) { auto g = [f = std::forward<F>(f), a...](score::cpp::stop_token t) mutable { (void)f(t, a...); }; stub_enqueue(std::make_shared<stub::FnTask<decltype(g)>>(std::move(g)), score::cpp::stop_source{}); }
 protected:
  virtual void stub_enqueue(std::shared_ptr<Task> t, score::cpp::stop_source s) { stub_queue().emplace_back(std::move(t), std::move(s)); }
 public:
  using Item = std::pair<std::shared_ptr<Task>, score::cpp::stop_source>;
  std::vector<Item>& stub_queue() { return q_; }
  bool stub_run_one() { if (q_.empty()) return false; Item i = std::move(q_.front()); q_.erase(q_.begin()); (*i.first)(i.second.get_token()); return true; }
 private:
  std::vector<Item> q_;
};
} }
