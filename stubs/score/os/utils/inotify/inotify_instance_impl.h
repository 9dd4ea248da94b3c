#pragma once
#include "score/os/utils/inotify/inotify_instance.h"
namespace score { namespace os {
class InotifyInstanceImpl final : public InotifyInstance {
 public:
  score::cpp::expected_blank<Error> IsValid() const noexcept override { return score::cpp::make_unexpected(Error::createFromErrno(EBADF)); }
  void Close() noexcept override {}
  score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(std::string_view, Inotify::EventMask) noexcept override { return score::cpp::make_unexpected(Error::createFromErrno(EBADF)); }
  score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor) noexcept override { return score::cpp::make_unexpected(Error::createFromErrno(EBADF)); }
  score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept override { return score::cpp::make_unexpected(Error::createFromErrno(EBADF)); }
};
} }
