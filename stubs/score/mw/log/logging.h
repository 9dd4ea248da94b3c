#pragma once
#include "score/utility.hpp"
#include "score/mw/log/log_stream.h"
#include "score/mw/log/runtime.h"
namespace score::mw::log {
struct SymNullLog { template <class T> const SymNullLog& operator<<(const T&) const noexcept { return *this; } };
inline LogStream SymLog() { return {}; }
inline LogStream LogFatal(std::string_view) noexcept { return {}; } inline LogStream LogError(std::string_view) noexcept { return {}; } inline LogStream LogWarn(std::string_view) noexcept { return {}; } inline LogStream LogInfo(std::string_view) noexcept { return {}; } inline LogStream LogDebug(std::string_view) noexcept { return {}; } inline LogStream LogVerbose(std::string_view) noexcept { return {}; } 
struct StubRecorder {}; inline StubRecorder& GetDefaultLogRecorder() { static StubRecorder r; return r; } inline StubRecorder& GetFallbackLogRecorder() { static StubRecorder r; return r; }
inline LogStream LogFatal() { return {}; } inline LogStream LogError() { return {}; } inline LogStream LogWarn() { return {}; } inline LogStream LogInfo() { return {}; } inline LogStream LogDebug() { return {}; } inline LogStream LogVerbose() { return {}; }
template <class C, std::enable_if_t<!std::is_convertible_v<C, std::string_view>, int> = 0> LogStream LogFatal(const C&) { return {}; } template <class C, std::enable_if_t<!std::is_convertible_v<C, std::string_view>, int> = 0> LogStream LogError(const C&) { return {}; } template <class C, std::enable_if_t<!std::is_convertible_v<C, std::string_view>, int> = 0> LogStream LogWarn(const C&) { return {}; } template <class C, std::enable_if_t<!std::is_convertible_v<C, std::string_view>, int> = 0> LogStream LogInfo(const C&) { return {}; } template <class C, std::enable_if_t<!std::is_convertible_v<C, std::string_view>, int> = 0> LogStream LogDebug(const C&) { return {}; } template <class C, std::enable_if_t<!std::is_convertible_v<C, std::string_view>, int> = 0> LogStream LogVerbose(const C&) { return {}; }
}
