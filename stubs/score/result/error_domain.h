#pragma once
#include "score/utility.hpp"
#include "score/result/error_code.h"
#include <string_view>
namespace score::result { class ErrorDomain { public: constexpr ErrorDomain() = default; virtual std::string_view MessageFor(const ErrorCode&) const noexcept = 0; protected: ~ErrorDomain() = default; ErrorDomain(const ErrorDomain&) = default; ErrorDomain(ErrorDomain&&) = default; ErrorDomain& operator=(const ErrorDomain&) = default; ErrorDomain& operator=(ErrorDomain&&) = default; }; }
