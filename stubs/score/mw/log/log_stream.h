#pragma once
#include "score/utility.hpp"
#include "score/mw/log/log_types.h"
#include <string_view>
namespace score::mw::log { class LogStream { public: void Flush() noexcept {} template <class T> LogStream& operator<<(const T&) noexcept { return *this; } };
struct LogHex8 { std::uint64_t v; }; struct LogHex16 { std::uint64_t v; }; struct LogHex32 { std::uint64_t v; }; struct LogHex64 { std::uint64_t v; };
}
