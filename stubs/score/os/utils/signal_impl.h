#pragma once
#include "score/os/errno.h"
#include "score/memory.hpp"
#include "score/memory_resource.hpp"
#include <csignal>
namespace score { namespace os {
class Signal { public: virtual ~Signal() = default; virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(const std::int32_t, const sigset_t&) const noexcept { return 0; } virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(const std::int32_t, const sigset_t&, sigset_t&) const noexcept { return 0; } virtual score::cpp::expected<std::int32_t, Error> SigEmptySet(sigset_t&) const noexcept { return 0; } virtual score::cpp::expected<std::int32_t, Error> SigAddSet(sigset_t&, const std::int32_t) const noexcept { return 0; } virtual score::cpp::expected<std::int32_t, Error> AddTerminationSignal(sigset_t&) const noexcept { return 0; } virtual score::cpp::expected<std::int32_t, Error> PthreadKill(pthread_t, std::int32_t) const noexcept { return 0; } };
class SignalImpl : public Signal {};
} }
