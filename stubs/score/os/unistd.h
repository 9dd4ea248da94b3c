#pragma once
#include "score/os/errno.h"
#include "score/memory.hpp"
#include "score/memory_resource.hpp"
#include <unistd.h>
#include <memory>
namespace score { namespace os {
class Unistd : public ObjectSeam<Unistd> {
 public:
  enum class AccessMode : std::uint32_t { kRead = R_OK, kWrite = W_OK, kExec = X_OK, kExists = F_OK };
  virtual score::cpp::expected_blank<Error> close(const std::int32_t fd) const noexcept { return score::cpp::make_unexpected(Error::createFromErrno(EBADF)); }
  virtual score::cpp::expected_blank<Error> unlink(const char* path) const noexcept { return score::cpp::make_unexpected(Error::createFromErrno(ENOENT)); }
  virtual score::cpp::expected_blank<Error> access(const char* path, const AccessMode) const noexcept { return score::cpp::make_unexpected(Error::createFromErrno(ENOENT)); }
  virtual score::cpp::expected<std::int32_t, Error> pipe(std::int32_t[2]) const noexcept { return score::cpp::make_unexpected(Error::createFromErrno(EMFILE)); }
  virtual score::cpp::expected<::ssize_t, Error> read(const std::int32_t, void*, const std::size_t) const noexcept { return score::cpp::make_unexpected(Error::createFromErrno(EBADF)); }
  virtual score::cpp::expected<::ssize_t, Error> write(const std::int32_t, const void*, const std::size_t) const noexcept { return score::cpp::make_unexpected(Error::createFromErrno(EBADF)); }
  virtual score::cpp::expected_blank<Error> ftruncate(const std::int32_t fd, const off_t length) const noexcept { return score::cpp::make_unexpected(Error::createFromErrno(EBADF)); }
  virtual pid_t getpid() const noexcept { return 1; }
  virtual uid_t getuid() const noexcept { return 0; }
  virtual gid_t getgid() const noexcept { return 0; }
  virtual std::int64_t gettid() const noexcept { return 1; }
  static std::unique_ptr<Unistd> Default() noexcept;
  static inline score::cpp::pmr::unique_ptr<Unistd> (*stub_factory)(score::cpp::pmr::memory_resource*) = nullptr;
  static score::cpp::pmr::unique_ptr<Unistd> Default(score::cpp::pmr::memory_resource* r) noexcept;
  virtual ~Unistd() = default;
};
namespace internal {
inline pid_t& stub_pid() { static pid_t p = 1; return p; }
class UnistdImpl : public Unistd { public: pid_t getpid() const noexcept override { return stub_pid(); } };
}
inline std::unique_ptr<Unistd> Unistd::Default() noexcept { return std::make_unique<internal::UnistdImpl>(); }
inline score::cpp::pmr::unique_ptr<Unistd> Unistd::Default(score::cpp::pmr::memory_resource* r) noexcept { if (stub_factory != nullptr) return stub_factory(r); return score::cpp::pmr::make_unique<internal::UnistdImpl>(r); }
} }
