#pragma once
#include "score/utility.hpp"
#include "score/memory_resource.hpp"
#include <string>
namespace score::cpp::pmr { using string = std::basic_string<char, std::char_traits<char>, polymorphic_allocator<char>>; }
