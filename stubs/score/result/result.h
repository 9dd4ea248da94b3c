#pragma once
#include "score/utility.hpp"
#include "score/expected.hpp"
#include "score/result/error.h"
#include <optional>
#include <variant>
namespace score {
namespace details { template <class T, class E> using expected = ::score::cpp::expected<T, E>; template <class E> using unexpected = ::score::cpp::unexpected<E>; }
using Unexpected = ::score::cpp::unexpected<result::Error>;
using unexpect_t = ::score::cpp::unexpect_t; inline constexpr unexpect_t unexpect{};
template <class T> using Result = ::score::cpp::expected<T, result::Error>;
using Blank = std::monostate;
using ResultBlank = Result<void>;
template <class E, std::enable_if_t<std::is_enum_v<E>, int> = 0> Unexpected MakeUnexpected(E e, std::string_view m = {}) { return Unexpected(result::Error(MakeError(e, m))); }
inline Unexpected MakeUnexpected(result::Error e) { return Unexpected(e); }
template <class T, class E, std::enable_if_t<std::is_enum_v<E>, int> = 0> Result<T> MakeUnexpected(E e, std::string_view m = {}) { return Unexpected(result::Error(MakeError(e, m))); }
template <class T> Result<T> MakeUnexpected(result::Error e) { return Unexpected(e); }
namespace result { namespace stub { class Dom final : public ErrorDomain { public: std::string_view MessageFor(const ErrorCode&) const noexcept override { return "stub"; } }; inline const Dom& dom() { static Dom d; return d; } } inline Error stub_error() { return Error{ErrorCode{1}, stub::dom(), ""}; } }
template <class T, class F> std::optional<T> ResultToOptionalOrElse(Result<T> r, F&& f) { if (r.has_value()) return std::move(r).value(); f(r.error()); return std::nullopt; }
}
