#pragma once
#include "score/utility.hpp"
#include <cstddef>
#include <cstdint>
namespace score::cpp { inline std::uint64_t hash_bytes_fnv1a(const void* p, std::size_t n, std::uint64_t s = 14695981039346656037ull) { auto* b = static_cast<const unsigned char*>(p); for (std::size_t i = 0; i < n; i++) { s ^= b[i]; s *= 1099511628211ull; } return s; } inline std::uint64_t hash_bytes(const void* p, std::size_t n) { return hash_bytes_fnv1a(p, n); } inline std::uint64_t hash_bytes_fnv1a_(const void* p, std::size_t n) { return hash_bytes_fnv1a(p, n); } }
