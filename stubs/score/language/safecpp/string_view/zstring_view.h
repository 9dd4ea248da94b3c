#pragma once
#include "score/mw/log/log_stream.h"
#include <functional>
#include <ostream>
#include <string>
#include <string_view>
namespace score { namespace safecpp {
class zstring_view {
 public:
  constexpr zstring_view() = default; constexpr zstring_view(const char* s) : v_{s} {} constexpr zstring_view(const char* s, std::size_t n) : v_{s, n} {} zstring_view(const std::string& s) : v_{s} {}
  constexpr const char* c_str() const noexcept { return v_.data(); } constexpr const char* data() const noexcept { return v_.data(); } constexpr std::size_t size() const noexcept { return v_.size(); } constexpr bool empty() const noexcept { return v_.empty(); }
  constexpr auto begin() const noexcept { return v_.begin(); } constexpr auto end() const noexcept { return v_.end(); }
  constexpr operator std::string_view() const noexcept { return v_; }
  constexpr char operator[](std::size_t i) const { return v_[i]; }
  constexpr int compare(std::string_view o) const noexcept { return v_.compare(o); }
  friend constexpr bool operator==(zstring_view a, zstring_view b) { return a.v_ == b.v_; } friend constexpr bool operator==(zstring_view a, std::string_view b) { return a.v_ == b; } friend constexpr bool operator!=(zstring_view a, zstring_view b) { return a.v_ != b.v_; }
  friend constexpr bool operator<(zstring_view a, zstring_view b) { return a.v_ < b.v_; }
 private:
  std::string_view v_{"", 0};
};
namespace literals { namespace zstring_views { inline constexpr zstring_view operator""_zsv(const char* s, std::size_t n) { return zstring_view{s, n}; } } }
namespace zstring_view_literals = literals::zstring_views;
namespace zstring_views = literals::zstring_views;
} }
