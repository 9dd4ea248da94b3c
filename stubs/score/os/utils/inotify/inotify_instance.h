#pragma once
#include "score/os/errno.h"
#include "score/os/unistd.h"
#include "score/os/utils/inotify/inotify_event.h"
#include "score/static_vector.hpp"
#include "score/string_view.hpp"
namespace score { namespace os {
class InotifyInstance {
 public:
  static constexpr std::size_t max_events = 10;
  virtual ~InotifyInstance() = default;
  virtual score::cpp::expected_blank<Error> IsValid() const noexcept = 0;
  virtual void Close() noexcept = 0;
  virtual score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(std::string_view path, Inotify::EventMask mask) noexcept = 0;
  virtual score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor wd) noexcept = 0;
  virtual score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept = 0;
};
} }
