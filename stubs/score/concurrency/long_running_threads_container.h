#pragma once
#include "score/concurrency/executor.h"
namespace score { namespace concurrency {
// Stand-in: hands every long running task to the harness, which decides on which thread it runs and what joining means.
class LongRunningThreadsContainer : public Executor {
 public:
  LongRunningThreadsContainer() = default;
  ~LongRunningThreadsContainer() override { Shutdown(); }
  static inline void (*stub_spawn)(LongRunningThreadsContainer*, std::shared_ptr<Task>, score::cpp::stop_source) = nullptr;
  static inline void (*stub_join)(LongRunningThreadsContainer*) = nullptr;
  bool ShutdownRequested() const noexcept override { return stop_; }
  void Shutdown() noexcept override { stop_ = true; for (auto& s : sources_) s.request_stop(); if (stub_join != nullptr) stub_join(this); }
 protected:
  void stub_enqueue(std::shared_ptr<Task> t, score::cpp::stop_source s) override { if (stub_spawn == nullptr) { Executor::stub_enqueue(std::move(t), std::move(s)); return; } sources_.push_back(s); stub_spawn(this, std::move(t), s); }
 private:
  std::vector<score::cpp::stop_source> sources_{}; bool stop_{false};
};
} }
