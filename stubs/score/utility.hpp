#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>
#include <type_traits>
#include <utility>
namespace score::cpp {
struct symstub_ignore_t { template <class T> constexpr const symstub_ignore_t& operator=(T&&) const noexcept { return *this; } };
inline constexpr symstub_ignore_t ignore{};
template <class E> constexpr std::underlying_type_t<E> to_underlying(E e) noexcept { return static_cast<std::underlying_type_t<E>>(e); }
template <class To, class From> constexpr To bit_cast(const From& f) { To t; __builtin_memcpy(&t, &f, sizeof(t)); return t; }
}
