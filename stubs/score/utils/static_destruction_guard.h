#pragma once
#include "score/utility.hpp"
#include <cstdint>
#include <new>
namespace score::utils { template <class T> class StaticDestructionGuard { public: StaticDestructionGuard() noexcept { if (counter()++ == 0) ::new (static_cast<void*>(storage())) T(); } ~StaticDestructionGuard() {} StaticDestructionGuard(const StaticDestructionGuard&) = delete; static T& GetStorage() noexcept { return *reinterpret_cast<T*>(storage()); } private: static int& counter() { static int c = 0; return c; } static unsigned char* storage() { alignas(T) static unsigned char s[sizeof(T)]; return s; } }; }
