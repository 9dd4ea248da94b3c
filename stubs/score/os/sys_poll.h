#pragma once
#include "score/os/errno.h"
#include "score/memory.hpp"
#include "score/memory_resource.hpp"
#include <poll.h>
namespace score { namespace os {
class SysPoll : public ObjectSeam<SysPoll> {
 public:
  virtual score::cpp::expected<std::int32_t, Error> poll(struct pollfd*, const nfds_t, const std::int32_t) const noexcept { return score::cpp::make_unexpected(Error::createFromErrno(EBADF)); }
  static inline score::cpp::pmr::unique_ptr<SysPoll> (*stub_factory)(score::cpp::pmr::memory_resource*) = nullptr;
  static score::cpp::pmr::unique_ptr<SysPoll> Default(score::cpp::pmr::memory_resource* r) noexcept { return stub_factory != nullptr ? stub_factory(r) : score::cpp::pmr::make_unique<SysPoll>(r); }
  virtual ~SysPoll() = default;
};
} }
