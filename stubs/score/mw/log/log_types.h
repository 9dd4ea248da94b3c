#pragma once
#include "score/utility.hpp"
#include <cstdint>
namespace score::mw::log { enum class LogLevel : std::uint8_t { kOff, kFatal, kError, kWarn, kInfo, kDebug, kVerbose }; }
