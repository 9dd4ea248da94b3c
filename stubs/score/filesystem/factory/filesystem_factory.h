#pragma once
#include "score/filesystem/filesystem_struct.h"
namespace score { namespace filesystem {
inline Filesystem& stub_filesystem() { static Filesystem f{}; return f; }
class FilesystemFactory { public: Filesystem CreateInstance() const noexcept { return stub_filesystem(); } };
} }
