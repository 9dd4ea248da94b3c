#pragma once
#include "score/utility.hpp"
#include "score/assert.hpp"
#include <cstddef>
namespace score::memory {
// invariants as documented: alignment is a non-zero power of two, size is a multiple of the alignment
class DataTypeSizeInfo { public: constexpr DataTypeSizeInfo() = default; constexpr DataTypeSizeInfo(std::size_t s, std::size_t a) : s_(s), a_(a) { SYMSTUB_ASSERT_(a != 0 && (a & (a - 1)) == 0 && s % a == 0); } constexpr std::size_t Size() const noexcept { return s_; } constexpr std::size_t Alignment() const noexcept { return a_; } friend constexpr bool operator==(const DataTypeSizeInfo& x, const DataTypeSizeInfo& y) noexcept { return x.s_ == y.s_ && x.a_ == y.a_; } friend constexpr bool operator!=(const DataTypeSizeInfo& x, const DataTypeSizeInfo& y) noexcept { return !(x == y); } private: std::size_t s_{0}; std::size_t a_{1}; };
template <class T> constexpr DataTypeSizeInfo CreateDataTypeSizeInfo() { return DataTypeSizeInfo(sizeof(T), alignof(T)); }
}
