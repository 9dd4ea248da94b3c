#pragma once
#include "score/os/errno.h"
#include "score/mw/log/log_stream.h"
namespace score { namespace os { inline mw::log::LogStream& operator<<(mw::log::LogStream& s, const Error&) noexcept { return s; } inline mw::log::LogStream& operator<<(mw::log::LogStream&& s, const Error&) noexcept { return s; } } }
