#pragma once
#include "score/utility.hpp"
#include <cstdint>
namespace score::result { using ErrorCode = std::int32_t; }
