#pragma once
#include "score/utility.hpp"
#define DISABLE_WARNING_PUSH
#define DISABLE_WARNING_POP
#define DISABLE_WARNING_INVALID_OFFSETOF
#define DISABLE_WARNING(x)
#define DISABLE_WARNING_MAYBE_UNINITIALIZED
#define DISABLE_WARNING_SELF_ASSIGN_OVERLOADED
#define DISABLE_WARNING_UNUSED_VALUE
