#pragma once
#include <array>
#include <cstdint>
#include <string>
namespace score { namespace os {
class Ipv4Address {
 public:
  Ipv4Address() = default; explicit Ipv4Address(std::string s) : s_{std::move(s)} {}
  std::array<std::uint8_t, 4> ToIpv4Bytes() const { std::array<std::uint8_t, 4> r{}; std::size_t k = 0; unsigned v = 0; for (char c : s_) { if (c == '.') { r[k++ & 3U] = static_cast<std::uint8_t>(v); v = 0; } else v = v * 10U + static_cast<unsigned>(c - '0'); } r[k & 3U] = static_cast<std::uint8_t>(v); return r; }
  std::string ToString() const { return s_; }
  friend bool operator==(const Ipv4Address& a, const Ipv4Address& b) { return a.s_ == b.s_; }
 private:
  std::string s_;
};
} }
