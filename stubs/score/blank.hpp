#pragma once
#include "score/utility.hpp"
#include <functional>
namespace score::cpp { struct blank {}; constexpr bool operator==(blank, blank) { return true; } constexpr bool operator!=(blank, blank) { return false; } constexpr bool operator<(blank, blank) { return false; } }
namespace std { template <> struct hash<score::cpp::blank> { size_t operator()(score::cpp::blank) const noexcept { return 0; } }; }
