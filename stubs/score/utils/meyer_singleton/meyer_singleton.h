#pragma once
#include <utility>
namespace score { namespace singleton {
template <class T> class MeyerSingleton { public: template <class... A> static T& GetInstance(A&&... a) { static T t{std::forward<A>(a)...}; return t; } template <class C> static T& GetInstanceInitializedWithCallable(C&& c) { static T t{std::forward<C>(c)()}; return t; } };
} }
