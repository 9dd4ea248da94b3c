// Stand-in: OS error value (errno wrapper) of the base libraries.
#pragma once
#include "score/expected.hpp"
#include <cerrno>
#include <cstdint>
#include <ostream>
#include <string>
#include <string_view>
#if defined(__linux__)
#include <sys/types.h>
#endif
namespace score {
namespace os {
class Error {
 public:
  enum class Code : std::int32_t { kUnexpected = 0, kOperationNotPermitted = EPERM, kNoSuchFileOrDirectory = ENOENT, kNoSuchProcess = ESRCH, kOperationWasInterruptedBySignal = EINTR, kIOError = EIO,
    kBadFileDescriptor = EBADF, kResourceTemporarilyUnavailable = EAGAIN, kNotEnoughSpace = ENOMEM, kPermissionDenied = EACCES, kInvalidAddress = EFAULT, kDeviceOrResourceBusy = EBUSY, kObjectExists = EEXIST,
    kNotADirectory = ENOTDIR, kIsADirectory = EISDIR, kInvalidArgument = EINVAL, kTooManyOpenFiles = EMFILE, kNoSpaceLeft = ENOSPC, kBrokenPipe = EPIPE, kMessageTooLong = EMSGSIZE, kCouldNotAllocateMemory = ENOBUFS, kTimedOut = ETIMEDOUT, kWouldBlock = EAGAIN };
  static Error createFromErrno() noexcept { return Error{errno}; }
  static Error createFromErrno(const std::int32_t e) noexcept { return Error{e}; }
  static Error createFromErrnoFlockSpecific() noexcept { return Error{errno}; }
  static Error createFromErrnoFlockSpecific(const std::int32_t e) noexcept { return Error{e}; }
  static Error createUnspecifiedError(const std::int32_t = 0) noexcept { return Error{0}; }
  std::string ToString() const noexcept { return std::string{}; }
  std::string_view UserMessage() const noexcept { return {}; }
  std::int32_t GetOsDependentErrorCode() const noexcept { return e_; }
  friend bool operator==(const Error& a, const Error& b) noexcept { return a.e_ == b.e_; }
  friend bool operator!=(const Error& a, const Error& b) noexcept { return a.e_ != b.e_; }
  friend bool operator==(const Error& a, const Code b) noexcept { return a.e_ == static_cast<std::int32_t>(b); }
  friend bool operator==(const Code b, const Error& a) noexcept { return a.e_ == static_cast<std::int32_t>(b); }
  friend bool operator!=(const Error& a, const Code b) noexcept { return !(a == b); }
  friend bool operator!=(const Code b, const Error& a) noexcept { return !(a == b); }
 private:
  explicit Error(std::int32_t e) : e_{e} {}
  std::int32_t e_;
};
inline std::ostream& operator<<(std::ostream& o, const Error&) { return o; }
// process-wide instance of one OS interface; the harness installs an in-memory implementation
template <typename T> class ObjectSeam {
 public:
  static T& instance() noexcept { if (p_ == nullptr) std::terminate(); return *p_; }
  static void set_testing_instance(T& t) noexcept { p_ = &t; }
  static void restore_instance() noexcept { p_ = nullptr; }
 private:
  static inline T* p_ = nullptr;
};
}
}
