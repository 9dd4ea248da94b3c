#pragma once
#include "score/os/utils/inotify/inotify_watch_descriptor.h"
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
namespace score { namespace os {
class InotifyEvent {
 public:
  enum class ReadMask : std::uint32_t { kUnknown = 0, kInAccess = 1, kInMovedTo = 0x80, kInCreate = 0x100, kInDelete = 0x200, kInIgnored = 0x8000, kInIsDir = 0x40000000, kInQOverflow = 0x4000 };
  InotifyEvent(InotifyWatchDescriptor wd, ReadMask mask, std::string name) : wd_{wd}, mask_{mask}, name_{std::move(name)} {}
  InotifyWatchDescriptor GetWatchDescriptor() const noexcept { return wd_; }
  ReadMask GetMask() const noexcept { return mask_; }
  std::uint32_t GetCookie() const noexcept { return 0; }
  std::string_view GetName() const noexcept { return name_; }
 private:
  InotifyWatchDescriptor wd_; ReadMask mask_; std::string name_;
};
constexpr InotifyEvent::ReadMask operator&(InotifyEvent::ReadMask a, InotifyEvent::ReadMask b) { return static_cast<InotifyEvent::ReadMask>(static_cast<std::uint32_t>(a) & static_cast<std::uint32_t>(b)); }
constexpr InotifyEvent::ReadMask operator|(InotifyEvent::ReadMask a, InotifyEvent::ReadMask b) { return static_cast<InotifyEvent::ReadMask>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b)); }
class Inotify { public: enum class EventMask : std::uint32_t { kUnknown = 0, kAccess = 1, kInMovedTo = 0x80, kInCreate = 0x100, kInDelete = 0x200 }; };
constexpr Inotify::EventMask operator|(Inotify::EventMask a, Inotify::EventMask b) { return static_cast<Inotify::EventMask>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b)); }
constexpr Inotify::EventMask operator&(Inotify::EventMask a, Inotify::EventMask b) { return static_cast<Inotify::EventMask>(static_cast<std::uint32_t>(a) & static_cast<std::uint32_t>(b)); }
} }
