#pragma once
#include "score/os/errno.h"
#include <cstdint>
#include <functional>
namespace score { namespace os {
class Acl { public: enum class Permission : std::uint32_t { kRead = 4, kWrite = 2, kExecute = 1 }; using FileDescriptor = int; virtual ~Acl() = default; };
} }
