#pragma once
#include <cstdint>
#include <functional>
namespace score { namespace os {
class InotifyWatchDescriptor {
 public:
  explicit InotifyWatchDescriptor(const std::int32_t d) : d_{d} {}
  std::int32_t GetUnderlying() const { return d_; }
  friend bool operator==(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) { return a.d_ == b.d_; }
  friend bool operator!=(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) { return a.d_ != b.d_; }
 private:
  std::int32_t d_;
};
} }
namespace std { template <> struct hash<score::os::InotifyWatchDescriptor> { size_t operator()(const score::os::InotifyWatchDescriptor& d) const noexcept { return static_cast<size_t>(d.GetUnderlying()); } }; }
