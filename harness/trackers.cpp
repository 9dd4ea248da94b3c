// SOURCES: score/mw/com/impl/sample_reference_tracker.cpp score/mw/com/impl/sample_allocatee_tracker.cpp score/mw/com/impl/sample_allocatee_guard.cpp
// ENTRY: h_ref_seq property=C12 reach=partial,full_grant,none,moved,reset quick=200 thorough=600 defs=K=3 tdefs=K=4
// ENTRY: h_ref_par property=C12 reach=both,partial quick=120 thorough=900 max_instr=100000 defs=PRE=5 tdefs=PRE=10
// ENTRY: h_ref_any property=C12 reach=two quick=60 thorough=600
// ENTRY: h_alloc_seq property=C12 reach=empty,moved quick=60 thorough=600 defs=K=4 tdefs=K=6
// ENTRY: h_alloc_par property=C12 reach=done quick=60 thorough=600 defs=PRE=6 tdefs=PRE=12
// BOUND: histories of 3 to 4 (4 to 6) operations over 2 or 3 guards with limits up to 3; two grants at a time with every 64-bit limit and request; 2 threads with 5 to 6 (10 to 12) preemptions
#include "sym.h"
#include <optional>
#include "score/mw/com/impl/sample_reference_tracker.h"
#include "score/mw/com/impl/sample_allocatee_tracker.h"
using namespace score::mw::com::impl;
#ifndef PRE
#define PRE 2
#endif
#ifndef K
#define K 3
#endif
static std::size_t small(std::uint8_t hi, const char* n) { std::uint8_t v = sym_u8(n); sym_assume(v <= hi); return v; }
extern "C" void h_ref_seq() {
  std::size_t max = small(3, "max"); SampleReferenceTracker t{max}; std::size_t used = 0; SampleReferenceGuard g[2]; bool live[2] = {};
  if (sym_choose(2, "reset")) { max = small(3, "max"); t.Reset(max); sym_reach("reset"); }
  sym_assert(t.GetNumAvailableSamples() == max && !t.IsUsed(), "fresh tracker");
  for (int i = 0; i < K; i++) {
    int op = sym_choose(3, "op");
    if (op == 0) { // a poll asks for some samples, takes a few guards and gives the rest back
      std::size_t want = small(4, "want"), grant; int take = sym_choose(2, "take") * 2, put = i; std::size_t expect = want < max - used ? want : max - used; bool handover = sym_choose(2, "handover");
      auto use = [&](TrackerGuardFactory& f) {
        for (int k = 0; k < take; k++) { auto x = f.TakeGuard(); sym_assert(x.has_value() == (expect > (std::size_t)k), "a poll gets guards exactly up to its grant"); if (x.has_value()) { int w = (put + k) % 2; if (live[w]) used--; live[w] = true; used++; g[w] = std::move(*x); sym_assert(!t.IsUsed() == (max == 0), "in use while a guard exists"); } } };
      { auto f = t.Allocate(want); grant = f.GetNumAvailableGuards(); sym_assert(grant == expect, "grants what is asked for, limited by what is left"); sym_assert(t.GetNumAvailableSamples() == max - used - grant, "available after grant");
        if (grant < want) { if (grant) sym_reach("partial"); else sym_reach("none"); } else if (want) sym_reach("full_grant");
        if (handover) { auto f2 = std::move(f); sym_assert(f.GetNumAvailableGuards() == 0 && !f.TakeGuard().has_value(), "a moved-from poll has no guards"); use(f2); } else use(f); }
    } else if (op == 1) { int w = sym_choose(2, "release"); { SampleReferenceGuard x{std::move(g[w])}; } if (live[w]) used--; live[w] = false; }
    else { int a = sym_choose(2, "from"), b = sym_choose(2, "to"); g[b] = std::move(g[a]); if (a != b) { if (live[b]) used--; live[b] = live[a]; live[a] = false; sym_reach("moved"); } }
    sym_assert(t.GetNumAvailableSamples() == max - used && t.IsUsed() == (used > 0), "samples available match the guards alive");
  }
  for (auto& x : g) x = SampleReferenceGuard{}; sym_assert(t.GetNumAvailableSamples() == max && !t.IsUsed(), "everything is given back");
}
extern "C" void h_ref_any() { // two grants alive at the same time, all 64-bit values
  std::size_t max = sym_u64("max"), a = sym_u64("want"), b = sym_u64("want"); SampleReferenceTracker t{0}; t.Reset(max);
  { auto f = t.Allocate(a); std::size_t ga = a < max ? a : max; sym_assert(f.GetNumAvailableGuards() == ga, "first grant"); std::size_t left = max - ga; sym_assert(t.GetNumAvailableSamples() == left, "available after the first grant");
    { auto g = t.Allocate(b); sym_assert(g.GetNumAvailableGuards() == (b < left ? b : left), "second grant"); sym_reach("two"); } sym_assert(t.GetNumAvailableSamples() == left, "a poll that takes nothing gives everything back"); }
  sym_assert(t.GetNumAvailableSamples() == max && !t.IsUsed(), "everything is given back");
}
extern "C" void h_ref_par() {
  std::size_t max = 1 + small(3, "max"); SampleReferenceTracker t{max}; sym_shared(&t, sizeof(t), 1); std::size_t w[2] = {small(4, "want"), small(4, "want")}, got[2] = {}; std::size_t held = 0; std::optional<SampleReferenceGuard> keep[2]; bool done[2] = {};
  auto th = [&](int i) { auto f = t.Allocate(w[i]); got[i] = f.GetNumAvailableGuards(); held += got[i]; sym_assert(got[i] <= w[i], "grants more than asked for"); sym_assert(held <= max, "more samples granted than subscribed"); 
    if (got[i]) { keep[i].emplace(*f.TakeGuard()); held -= got[i] - 1; } done[i] = true; };
  sym_par(PRE, 0, 0, [&] { th(0); }, [&] { th(1); });
  if (got[0] && got[1]) sym_reach("both"); if (got[0] < w[0] || got[1] < w[1]) sym_reach("partial");
  if (w[0] + w[1] <= max) sym_assert(got[0] == w[0] && got[1] == w[1], "a request that fits is not granted"); sym_assert(got[0] + got[1] > 0 || w[0] + w[1] == 0, "nobody gets a sample");
  sym_assert(t.GetNumAvailableSamples() == max - (got[0] > 0) - (got[1] > 0), "available after concurrent polls"); keep[0].reset(); keep[1].reset(); sym_assert(t.GetNumAvailableSamples() == max && !t.IsUsed(), "everything is given back");
}
extern "C" void h_alloc_seq() {
  SampleAllocateeTracker t; SampleAllocateeGuard g[3]; bool live[3] = {}; std::size_t n = 0;
  for (int i = 0; i < K; i++) {
    int op = sym_choose(3, "op"), a = sym_choose(3, "which");
    if (op == 0) { g[a] = t.Allocate(); if (!live[a]) n++; live[a] = true; }
    else if (op == 1) { SampleAllocateeGuard x{std::move(g[a])}; sym_assert(t.GetNumAllocated() == n, "moving changes the number"); if (live[a]) n--; live[a] = false; }
    else { int b = sym_choose(3, "to"); g[b] = std::move(g[a]); if (a != b) { if (live[b]) n--; live[b] = live[a]; live[a] = false; sym_reach("moved"); } }
    sym_assert(t.GetNumAllocated() == n, "number of allocated samples"); if (!n) sym_reach("empty");
  }
  for (auto& x : g) x = SampleAllocateeGuard{}; sym_assert(t.GetNumAllocated() == 0, "everything is given back");
}
extern "C" void h_alloc_par() {
  SampleAllocateeTracker t; sym_shared(&t, sizeof(t), 1); std::optional<SampleAllocateeGuard> keep[2];
  auto th = [&](int i) { auto a = t.Allocate(); sym_assert(t.GetNumAllocated() >= 1, "own sample is not counted"); { auto b = t.Allocate(); } keep[i].emplace(std::move(a)); };
  sym_par(PRE, 0, 0, [&] { th(0); }, [&] { th(1); }); sym_reach("done"); sym_assert(t.GetNumAllocated() == 2, "number of allocated samples"); keep[0].reset(); keep[1].reset(); sym_assert(t.GetNumAllocated() == 0, "everything is given back");
}
