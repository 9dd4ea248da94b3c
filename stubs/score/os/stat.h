#pragma once
#include "score/os/errno.h"
#include "score/blank.hpp"
#include <sys/stat.h>
#include <cstdint>
namespace score { namespace os {
struct StatBuffer { std::int64_t mtime{}; std::int32_t st_rdev{}; std::uint64_t st_size{}; std::int64_t st_dev{}; std::int64_t st_ino{}; std::int32_t st_mode{}; std::int32_t st_nlink{}; std::int32_t st_uid{}; std::int32_t st_gid{}; };
class Stat : public ObjectSeam<Stat> {
 public:
  enum class Mode : std::uint32_t { kNone = 0, kReadUser = 0400, kWriteUser = 0200, kExecUser = 0100, kReadWriteExecUser = 0700, kReadGroup = 040, kWriteGroup = 020, kExecGroup = 010, kReadWriteExecGroup = 070, kReadOthers = 04, kWriteOthers = 02, kExecOthers = 01, kReadWriteExecOthers = 07, kUnknown = 0x10000 };
  virtual score::cpp::expected_blank<Error> stat(const char* file, StatBuffer& buf, const bool resolve_symlinks = true) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> fstat(const std::int32_t fd, StatBuffer& buf) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> mkdir(const char* path, const Mode mode) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> chmod(const char* path, const Mode mode) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> fchmod(const std::int32_t fd, const Mode mode) const noexcept = 0;
  virtual score::cpp::expected<Mode, Error> umask(const Mode mode) const noexcept { return Mode::kNone; }
  virtual ~Stat() = default;
};
constexpr Stat::Mode operator|(Stat::Mode a, Stat::Mode b) { return static_cast<Stat::Mode>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b)); }
constexpr Stat::Mode operator&(Stat::Mode a, Stat::Mode b) { return static_cast<Stat::Mode>(static_cast<std::uint32_t>(a) & static_cast<std::uint32_t>(b)); }
constexpr Stat::Mode operator~(Stat::Mode a) { return static_cast<Stat::Mode>(~static_cast<std::uint32_t>(a)); }
inline Stat::Mode& operator|=(Stat::Mode& a, Stat::Mode b) { a = a | b; return a; }
inline ::mode_t ModeToInteger(const Stat::Mode m) { return static_cast<::mode_t>(m); }
inline Stat::Mode IntegerToMode(const ::mode_t m) { return static_cast<Stat::Mode>(m); }
} }
