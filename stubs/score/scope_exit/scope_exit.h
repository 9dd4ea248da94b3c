#pragma once
#include "score/utility.hpp"
#include <functional>
#include <optional>
#include <type_traits>
#include <utility>
namespace score::utils { template <class F = std::function<void()>> class ScopeExit { public: template <class G> explicit ScopeExit(G&& g) : f_(std::in_place, std::forward<G>(g)) {} ScopeExit(ScopeExit&& o) noexcept : f_(std::move(o.f_)) { o.f_.reset(); } ScopeExit& operator=(ScopeExit&& o) noexcept { if (this != &o) { if (f_) (*f_)(); f_.reset(); if (o.f_) f_.emplace(std::move(*o.f_)); o.f_.reset(); } return *this; } ScopeExit(const ScopeExit&) = delete; ~ScopeExit() { if (f_) (*f_)(); } void Release() noexcept { f_.reset(); } private: std::optional<F> f_; }; template <class F> ScopeExit(F) -> ScopeExit<std::function<void()>>; }
