#pragma once
#include <ostream>
#include <string>
#include <string_view>
#include <utility>
namespace score { namespace filesystem {
class Path {
 public:
  Path() = default; Path(const char* s) : s_{s} {} Path(std::string s) : s_{std::move(s)} {} Path(std::string_view s) : s_{s} {}
  const std::string& Native() const noexcept { return s_; }
  const char* CStr() const noexcept { return s_.c_str(); }
  operator std::string() const { return s_; }
  operator std::string_view() const noexcept { return s_; }
  bool Empty() const { return s_.empty(); }
  bool IsAbsolute() const { return !s_.empty() && s_[0] == '/'; }
  Path& operator/=(const Path& o) { if (o.IsAbsolute()) { s_ = o.s_; return *this; } if (!s_.empty() && s_.back() != '/') s_ += '/'; s_ += o.s_; return *this; }
  friend Path operator/(const Path& a, const Path& b) { Path r{a}; r /= b; return r; }
  Path& operator+=(const Path& o) { s_ += o.s_; return *this; }
  Path ParentPath() const { auto p = s_.rfind('/'); if (p == std::string::npos) return Path{}; if (p == 0) return Path{"/"}; return Path{s_.substr(0, p)}; }
  Path Filename() const { auto p = s_.rfind('/'); return p == std::string::npos ? *this : Path{s_.substr(p + 1)}; }
  Path RelativePath() const { std::size_t i = 0; while (i < s_.size() && s_[i] == '/') ++i; return Path{s_.substr(i)}; }
  friend bool operator==(const Path& a, const Path& b) { return a.s_ == b.s_; }
  friend bool operator!=(const Path& a, const Path& b) { return a.s_ != b.s_; }
  friend bool operator<(const Path& a, const Path& b) { return a.s_ < b.s_; }
 private:
  std::string s_;
};
} }
