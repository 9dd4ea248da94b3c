#pragma once
#include <string>
namespace score { namespace safecpp { template <class T> struct char_traits_wrapper { using traits_type = std::char_traits<T>; }; } }
