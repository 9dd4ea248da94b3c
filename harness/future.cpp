// SOURCES: score/message_passing/non_allocating_future/non_allocating_future.cpp
// ENTRY: h_fut_wait property=C18 reach=waited,ready_first quick=90 thorough=600 defs=PRE=4 tdefs=PRE=8
// ENTRY: h_fut_two property=C18 reach=done quick=120 thorough=900 defs=PRE=2 tdefs=PRE=4
// ENTRY: h_fut_again property=C18 reach=done quick=60 thorough=300
// ENTRY: h_fut_spurious property=C18 reach=done quick=60 thorough=600 defs=PRE=3 tdefs=PRE=6
// BOUND: one or two waiting threads and one completing thread, 2 to 4 (4 to 8) preemptions; a shared condition variable signalled for other reasons
#include "sym.h"
#include <condition_variable>
#include <mutex>
#include "score/message_passing/non_allocating_future/non_allocating_future.h"
using namespace score::message_passing::detail;
#ifndef PRE
#define PRE 2
#endif
struct V2 { std::uint64_t a{0}, b{0}; };
using F = NonAllocatingFuture<std::mutex, std::condition_variable, V2>;
static void complete(F& f, std::uint64_t a, std::uint64_t b) {
  switch (sym_choose(3, "how")) { case 0: { const V2 v{a, b}; f.UpdateValueMarkReady(v); } break; case 1: f.UpdateValueMarkReady(V2{a, b}); break; default: f.GetValueForUpdate().a = a; f.GetValueForUpdate().b = b; f.MarkReady(); } }
extern "C" void h_fut_wait() {
  std::mutex m; std::condition_variable cv; V2 v; std::uint64_t a = sym_u64("a"), b = sym_u64("b"); F f{m, cv, v}; bool marking = false, done = false; sym_shared(&v, sizeof v, 3); sym_shared(&f, sizeof f, 3);
  sym_par(PRE, 0, 0,
    [&] { if (marking) sym_reach("ready_first"); else sym_reach("waited"); f.Wait(); sym_assert(marking, "a wait ends before the result is there"); sym_assert((f.GetValue().a == a) & (f.GetValue().b == b), "a wait ends with a value that is not complete"); done = true; },
    [&] { sym_yield(); marking = true; complete(f, a, b); });
  sym_assert(done, "the waiting thread is never woken");
}
extern "C" void h_fut_two() {
  std::mutex m; std::condition_variable cv; bool marking = false; int done = 0;
  NonAllocatingFuture f{m, cv}; sym_shared(&f, sizeof f, 3); auto w = [&] { f.Wait(); sym_assert(marking, "a wait ends before completion"); done++; };
  sym_par(PRE, 0, 0, w, w, [&] { marking = true; f.MarkReady(); }); sym_assert(done == 2, "every waiting thread is woken"); sym_reach("done");
}
extern "C" void h_fut_again() {
  std::mutex m; std::condition_variable cv; V2 v; std::uint64_t a = sym_u64("a"), b = sym_u64("b"); F f{m, cv, v}; complete(f, a, b); f.Wait(); f.Wait(); sym_assert((f.GetValue().a == a) & (f.GetValue().b == b) & (v.a == a) & (v.b == b), "value"); { std::unique_lock l{m, std::try_to_lock}; sym_assert(l.owns_lock(), "the lock is still held"); } sym_reach("done");
}
extern "C" void h_fut_spurious() { // the condition variable is signalled for something else before the result is there
  std::mutex m; std::condition_variable cv; V2 v; F f{m, cv, v}; bool marking = false, done = false; std::uint64_t a = sym_u64("a");
  sym_par(PRE, 0, 0, [&] { f.Wait(); sym_assert(marking, "a wait ends before the result is there"); sym_assert(f.GetValue().a == a, "value"); done = true; },
    [&] { { std::lock_guard l{m}; cv.notify_all(); } sym_yield(); cv.notify_all(); sym_yield(); marking = true; complete(f, a, 1); });
  sym_assert(done, "the waiting thread is never woken"); sym_reach("done");
}
