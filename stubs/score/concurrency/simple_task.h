#pragma once
#include "score/concurrency/executor.h"
namespace score { namespace concurrency { class SimpleTaskFactory { public: template <class F> static std::shared_ptr<Task> Make(score::cpp::pmr::memory_resource*, F&& f) { return std::make_shared<stub::FnTask<std::decay_t<F>>>(std::forward<F>(f)); } }; } }
