// Minimal stand-in for score::safe_math: checked integer arithmetic, error when the exact result is not representable.
#pragma once
#include "score/utility.hpp"
#include "score/result/result.h"
#include <cstdint>
#include <limits>
#include <type_traits>
namespace score::safe_math {
enum class ErrorCode : ::score::result::ErrorCode { kExceedsNumericLimits = 1, kDivideByZero, kUnspecifiedLossOfPrecision };
class SymDomain final : public ::score::result::ErrorDomain { public: std::string_view MessageFor(const ::score::result::ErrorCode&) const noexcept override { return ""; } };
inline constexpr SymDomain sym_domain; inline ::score::result::Error MakeError(ErrorCode c, std::string_view m = {}) noexcept { return {static_cast<::score::result::ErrorCode>(c), sym_domain, m}; }
enum class ReturnMode { kNormal, kAbortOnError };
template <ReturnMode M, class T> auto symret(bool ok, T v) { if constexpr (M == ReturnMode::kAbortOnError) { SYMSTUB_ASSERT_(ok); return v; } else { if (!ok) return Result<T>(MakeUnexpected(ErrorCode::kExceedsNumericLimits)); return Result<T>(v); } }
template <class A, class B> using symcommon = std::conditional_t<std::is_same_v<A, B>, A, std::common_type_t<A, B>>;
template <ReturnMode M = ReturnMode::kNormal, class A, class B> auto Add(A a, B b) { symcommon<A, B> r; bool o = __builtin_add_overflow(a, b, &r); return symret<M>(!o, r); }
template <ReturnMode M = ReturnMode::kNormal, class A, class B> auto Subtract(A a, B b) { symcommon<A, B> r; bool o = __builtin_sub_overflow(a, b, &r); return symret<M>(!o, r); }
template <ReturnMode M = ReturnMode::kNormal, class A, class B> auto Multiply(A a, B b) { symcommon<A, B> r; bool o = __builtin_mul_overflow(a, b, &r); return symret<M>(!o, r); }
template <class R, class A, class B> constexpr R symadd(A a, B b) { return static_cast<R>(a) + static_cast<R>(b); }
// usable in constant expressions, converts to Result
template <class R> class SymCast { public: constexpr SymCast(bool ok, R v) : ok_(ok), v_(v) {} constexpr bool has_value() const { return ok_; } constexpr explicit operator bool() const { return ok_; } constexpr R value() const { if (!ok_) SYMSTUB_ASSERT_(ok_); return v_; } constexpr R operator*() const { return value(); } ::score::result::Error error() const { return MakeError(ErrorCode::kExceedsNumericLimits); } constexpr R value_or(R d) const { return ok_ ? v_ : d; } operator Result<R>() const { if (ok_) return Result<R>(v_); return MakeUnexpected(ErrorCode::kExceedsNumericLimits); } private: bool ok_; R v_; };
template <class R, class A> constexpr SymCast<R> Cast(A a) { R r = static_cast<R>(a); if (static_cast<A>(r) != a || ((r < R{}) != (a < A{}))) return SymCast<R>(false, R{}); return SymCast<R>(true, r); }
template <class R, class A, class B> Result<R> Divide(A a, B b) { if (b == B{}) return MakeUnexpected(ErrorCode::kDivideByZero); bool neg = (a < A{}) != (b < B{}); using U = std::uint64_t; U ua = a < A{} ? U{0} - static_cast<U>(a) : static_cast<U>(a), ub = b < B{} ? U{0} - static_cast<U>(b) : static_cast<U>(b); if (ua % ub != 0) return MakeUnexpected(ErrorCode::kUnspecifiedLossOfPrecision); U q = ua / ub; if (neg) { if (q > U{1} << 63) return MakeUnexpected(ErrorCode::kExceedsNumericLimits); return Result<R>(static_cast<R>(U{0} - q)); } if (q > static_cast<U>(std::numeric_limits<R>::max())) return MakeUnexpected(ErrorCode::kExceedsNumericLimits); return Result<R>(static_cast<R>(q)); }
template <class A> std::make_unsigned_t<A> Abs(A a) { using U = std::make_unsigned_t<A>; return a < 0 ? static_cast<U>(U{0} - static_cast<U>(a)) : static_cast<U>(a); }
}
