#pragma once
#include "score/language/safecpp/scoped_function/scope.h"
#include <functional>
#include <memory>
#include <optional>
#include <type_traits>
#include <utility>
namespace score { namespace safecpp {
namespace stub {
template <class R> struct Ret { using type = std::optional<R>; };
template <class R> struct Ret<R&> { using type = std::optional<std::reference_wrapper<R>>; };
template <> struct Ret<void> { struct V { bool ok; bool has_value() const { return ok; } explicit operator bool() const { return ok; } }; using type = V; };
template <class Sig> class ScopedBase;
template <class R, class... A> class ScopedBase<R(A...)> {
  struct I { virtual R call(A... a) = 0; virtual ~I() = default; };
  template <class F> struct M : I { F f; template <class G> explicit M(G&& g) : f(std::forward<G>(g)) {} R call(A... a) override { return f(std::forward<A>(a)...); } };
 public:
  ScopedBase() = default;
  template <class P, class F> ScopedBase(const Scope<P>& s, F&& f) : s_{s.stub_state()}, f_{std::make_shared<M<std::decay_t<F>>>(std::forward<F>(f))} {}
  typename Ret<R>::type operator()(A... a) const {
    if (!s_ || !f_) return {};
    CallLock l{s_->m};
    if (s_->expired) return {};
    if constexpr (std::is_void<R>::value) { f_->call(std::forward<A>(a)...); return {true}; } else { return typename Ret<R>::type{f_->call(std::forward<A>(a)...)}; }
  }
 protected:
  std::shared_ptr<ScopeState> s_; std::shared_ptr<I> f_;
};
}
template <class Sig> class MoveOnlyScopedFunction;
template <class R, class... A> class MoveOnlyScopedFunction<R(A...)> : public stub::ScopedBase<R(A...)> {
 public:
  using stub::ScopedBase<R(A...)>::ScopedBase; MoveOnlyScopedFunction() = default;
  MoveOnlyScopedFunction(MoveOnlyScopedFunction&&) noexcept = default; MoveOnlyScopedFunction& operator=(MoveOnlyScopedFunction&&) noexcept = default;
  MoveOnlyScopedFunction(const MoveOnlyScopedFunction&) = delete; MoveOnlyScopedFunction& operator=(const MoveOnlyScopedFunction&) = delete;
};
} }
