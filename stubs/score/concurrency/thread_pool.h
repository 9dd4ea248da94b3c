#pragma once
#include "score/concurrency/executor.h"
namespace score { namespace concurrency { class ThreadPool : public Executor { public: explicit ThreadPool(std::size_t, std::string_view = "") {} }; } }
