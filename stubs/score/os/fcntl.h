#pragma once
#include "score/os/errno.h"
#include "score/os/stat.h"
#include "score/memory.hpp"
#include "score/memory_resource.hpp"
#include <fcntl.h>
#include <sys/file.h>
namespace score { namespace os {
class Fcntl : public ObjectSeam<Fcntl> {
 public:
  enum class Open : std::uint32_t { kUndefined = 0, kReadOnly = 1, kWriteOnly = 2, kReadWrite = 4, kNonBlocking = 8, kCloseOnExec = 16, kCreate = 32, kExclusive = 64, kTruncate = 128, kDirectory = 256, kAppend = 512, kSynchronized = 1024 };
  enum class Operation : std::int32_t { kLockShared = 1, kLockExclusive = 2, kUnLock = 8, kLockNB = 4 };
  enum class Command : std::int32_t { kFileGetStatusFlags = F_GETFL, kFileSetStatusFlags = F_SETFL };
  virtual score::cpp::expected_blank<Error> fcntl(const std::int32_t, const Command, const Open) const noexcept { return score::cpp::make_unexpected(Error::createFromErrno(EINVAL)); }
  virtual score::cpp::expected<std::int32_t, Error> open(const char* path, const Open flags) const noexcept = 0;
  virtual score::cpp::expected<std::int32_t, Error> open(const char* path, const Open flags, const Stat::Mode mode) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> flock(const std::int32_t fd, const Operation op) const noexcept = 0;
  virtual ~Fcntl() = default;
};
#define SCORE_STUB_BITOPS(T, U) constexpr T operator|(T a, T b) { return static_cast<T>(static_cast<U>(a) | static_cast<U>(b)); } constexpr T operator&(T a, T b) { return static_cast<T>(static_cast<U>(a) & static_cast<U>(b)); } inline T& operator|=(T& a, T b) { a = a | b; return a; }
SCORE_STUB_BITOPS(Fcntl::Open, std::uint32_t)
SCORE_STUB_BITOPS(Fcntl::Operation, std::int32_t)
} }
