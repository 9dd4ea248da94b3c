#pragma once
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
namespace score { namespace safecpp {
template <class Sig> class CopyableScopedFunction;
template <class R, class... A> class CopyableScopedFunction<R(A...)> : public stub::ScopedBase<R(A...)> { public: using stub::ScopedBase<R(A...)>::ScopedBase; CopyableScopedFunction() = default; };
} }
