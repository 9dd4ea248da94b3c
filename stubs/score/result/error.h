#pragma once
#include "score/utility.hpp"
#include "score/result/error_domain.h"
#include <ostream>
#include <string_view>
#include <type_traits>
#include <utility>
namespace score::result {
class Error {
 public:
  constexpr Error(ErrorCode c, const ErrorDomain& d, std::string_view m = {}) noexcept : c_(c), d_(&d), m_(m) {}
  template <class E, std::enable_if_t<std::is_enum_v<E>, int> = 0> constexpr Error(E e, std::string_view m = {}) noexcept : Error(MakeError(e, m)) {}
  constexpr const ErrorCode& operator*() const noexcept { return c_; }
  std::string_view Message() const noexcept { return d_->MessageFor(c_); } constexpr std::string_view UserMessage() const noexcept { return m_; }
  friend constexpr bool operator==(const Error& a, const Error& b) noexcept { return a.c_ == b.c_ && a.d_ == b.d_; } friend constexpr bool operator!=(const Error& a, const Error& b) noexcept { return !(a == b); }
 private: ErrorCode c_; const ErrorDomain* d_; std::string_view m_;
};
template <class E, std::enable_if_t<std::is_enum_v<E>, int> = 0> bool operator==(const Error& a, E e) { return a == Error(MakeError(e, std::string_view{})); }
template <class E, std::enable_if_t<std::is_enum_v<E>, int> = 0> bool operator!=(const Error& a, E e) { return !(a == e); }
inline std::ostream& operator<<(std::ostream& o, const Error&) { return o; }
}
