#pragma once
#include "score/filesystem/filesystem_struct.h"
#include "score/filesystem/factory/filesystem_factory.h"
#include "score/mw/log/log_stream.h"
namespace score { namespace filesystem { inline mw::log::LogStream& operator<<(mw::log::LogStream& s, const Path&) noexcept { return s; } } }
