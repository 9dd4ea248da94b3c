#pragma once
#include "score/os/errno.h"
#include "score/os/fcntl.h"
#include "score/os/stat.h"
#include <sys/mman.h>
namespace score { namespace os {
class Mman : public ObjectSeam<Mman> {
 public:
  enum class Protection : std::int32_t { kNone = 0, kRead = 1, kWrite = 2, kExec = 4 };
  enum class Map : std::int32_t { kShared = 1, kPrivate = 2, kFixed = 4 };
  virtual score::cpp::expected<void*, Error> mmap(void* addr, const std::size_t length, const Protection prot, const Map flags, const std::int32_t fd, const std::int64_t offset) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> munmap(void* addr, const std::size_t length) const noexcept = 0;
  virtual score::cpp::expected<std::int32_t, Error> shm_open(const char* path, const Fcntl::Open oflag, const Stat::Mode mode) const noexcept = 0;
  virtual score::cpp::expected_blank<Error> shm_unlink(const char* path) const noexcept = 0;
  virtual ~Mman() = default;
};
SCORE_STUB_BITOPS(Mman::Protection, std::int32_t)
SCORE_STUB_BITOPS(Mman::Map, std::int32_t)
} }
