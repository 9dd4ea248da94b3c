// SOURCES: @slots
// ENTRY: h_collect property=C03,C04 reach=some,none,limited,again quick=150 thorough=800 defs=NS=3 tdefs=NS=4
// ENTRY: h_collect2 property=C03,C04 reach=some,none,limited,again quick=100 thorough=800 defs=NS=2 tdefs=NS=3
// ENTRY: h_collect_par property=C03 reach=delivered quick=150 thorough=800 defs=PRE=2 tdefs=PRE=4
// ENTRY: h_numnew_par property=C04 reach=counted quick=100 thorough=600 defs=PRE=2 tdefs=PRE=4
// BOUND: 3 sample slots (4 thorough) with every content of every slot word, every requested maximum and every configured maximum up to one more than the number of slots, from an arbitrary last received timestamp; two successive collections over 2 slots (3 thorough) with arbitrary publications in between
// BOUND: interleaved collection: 2 slots, one provider publishing twice, one consumer collecting twice, schedules with at most PRE preemptions
#include "hx.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/slot_collector.h"
#include <vector>
using namespace score::mw::com::impl::lola;
#ifndef NS
#define NS 2
#endif
#ifndef PRE
#define PRE 2
#endif
namespace {
constexpr int N = NS;
// slots with pairwise different timestamps below the reserved maximum
void fill(EventDataControl& ctl, std::uint64_t* pre, int n, const char* name) {
  for (int i = 0; i < n; i++) { std::uint64_t v = hx::sym_slot(name); sym_assume(hx::ts(v) != 0xFFFFFFFFu); for (int j = 0; j < i; j++) sym_assume((hx::ts(v) != hx::ts(pre[j])) | (hx::ts(v) == 0)); pre[i] = v; ctl.state_slots_[i].store(v); }
}
struct Got { int n; std::uint16_t idx[N + 2]; };
// one collection compared with the definition: the min(limit, max) newest samples above `last`, oldest of them first
Got collect(EventDataControl& ctl, SlotCollector& c, std::uint64_t* pre, std::uint32_t& last, std::size_t max_count, std::size_t cap) {
  std::uint32_t avail = 0; for (int i = 0; i < N; i++) avail += (hx::ready(pre[i]) & (hx::ts(pre[i]) > last)) ? 1u : 0u;
  sym_assert(c.GetNumNewSamplesAvailable() == avail, "number of new samples differs from the number of published samples newer than the last received one");
  for (int i = 0; i < N; i++) sym_assert(ctl.state_slots_[i].load() == pre[i], "asking for the number of new samples changes a slot");
  auto it = c.GetNewSamplesSlotIndices(max_count); Got g{0, {}}; std::uint32_t prev = last; bool taken[N] = {};
  for (auto p = it.begin; p != it.end; ++p) {
    sym_assert(g.n < N, "more samples delivered than slots exist"); std::uint16_t s = *p; sym_assert(s < N, "delivered slot out of range"); s = sym_concretize(s);
    sym_assert(!taken[s], "a sample is delivered twice in one call"); taken[s] = true; sym_assert(hx::ready(pre[s]), "a slot without published sample is delivered");
    sym_assert(hx::ts(pre[s]) > prev, "samples are not delivered in ascending publication order above the last received one"); prev = hx::ts(pre[s]); g.idx[g.n++] = s;
  }
  std::uint32_t lim = max_count < cap ? max_count : cap; std::uint32_t want = avail < lim ? avail : lim;
  sym_assert(static_cast<std::uint32_t>(g.n) == want, "number of delivered samples differs from what is available within the limits");
  if (g.n > 0) for (int i = 0; i < N; i++) if (!taken[i]) sym_assert(!hx::ready(pre[i]) | (hx::ts(pre[i]) < hx::ts(pre[g.idx[0]])), "an older sample was delivered while a newer one was left out");
  for (int i = 0; i < N; i++) sym_assert(ctl.state_slots_[i].load() == pre[i] + (taken[i] ? 1 : 0), "exactly the delivered samples gain exactly one reference");
  last = prev; if (g.n) sym_reach("some"); else sym_reach("none"); if (want < avail) sym_reach("limited");
  sym_observe(g.n); return g;
}
}
// the last received timestamp is made arbitrary by receiving one sample first
extern "C" void h_collect() {
  hx::HeapResource res; EventDataControl ctl{N, res}; std::uint64_t pre[N];
  TransactionLog log{N, res}; TransactionLogLocalView lv{log}; ConsumerEventDataControlLocalView<> v{ctl, lv};
  std::size_t cap = sym_choose(N, "cap") + 1; SlotCollector c{v, cap}; std::uint32_t last = 0;
  if (sym_choose(2, "first")) {
    std::uint32_t t = sym_u32("first_ts"); sym_assume((t != 0) & (t != 0xFFFFFFFFu)); ctl.state_slots_[N - 1].store(hx::slot(t, 0)); auto it = c.GetNewSamplesSlotIndices(N);
    sym_assert(it.begin != it.end && *it.begin == N - 1, "the only published sample is not delivered"); v.DereferenceEvent(N - 1); last = t; sym_reach("again");
  }
  fill(ctl, pre, N, "slot"); std::size_t m = sym_choose(N + 2, "max"); Got g = collect(ctl, c, pre, last, m, cap);
  for (int k = 0; k < g.n; k++) v.DereferenceEvent(g.idx[k]);
  for (int i = 0; i < N; i++) sym_assert(ctl.state_slots_[i].load() == pre[i], "releasing every delivered sample restores the slots");
}
extern "C" void h_collect2() {
  hx::HeapResource res; EventDataControl ctl{N, res}; std::uint64_t pre[N]; fill(ctl, pre, N, "slot");
  TransactionLog log{N, res}; TransactionLogLocalView lv{log}; ConsumerEventDataControlLocalView<> v{ctl, lv};
  std::size_t cap = N; SlotCollector c{v, cap}; std::uint32_t last = 0;
  Got g = collect(ctl, c, pre, last, sym_choose(2, "max1") + 1, cap);
  for (int k = 0; k < g.n; k++) v.DereferenceEvent(g.idx[k]);
  fill(ctl, pre, N, "later"); sym_reach("again"); collect(ctl, c, pre, last, sym_choose(2, "max2") + 1, cap);
}
extern "C" void h_collect_par() {
  constexpr int M = 2; hx::HeapResource res; EventDataControl ctl{M, res}; std::uint64_t pre[M]; fill(ctl, pre, M, "slot");
  std::uint32_t newest = 0; for (int i = 0; i < M; i++) { sym_assume((pre[i] != hx::kInWriting) & (hx::rc(pre[i]) == 0) & (hx::ts(pre[i]) < 0xFFFFFF00u)); newest = hx::ts(pre[i]) > newest ? hx::ts(pre[i]) : newest; }
  sym_shared(ctl.state_slots_.data(), sizeof(ControlSlotType) * M, 1); std::uint32_t start = newest;
  sym_par(PRE, 0, 0,
    [&] { ProviderEventDataControlLocalView<> p{ctl}; for (int k = 0; k < 2; k++) { auto r = p.AllocateNextSlot(); if (r.has_value()) p.EventReady(*r, ++newest); } },
    [&] { TransactionLog log{M, res}; TransactionLogLocalView lv{log}; ConsumerEventDataControlLocalView<> v{ctl, lv}; SlotCollector c{v, M}; std::uint32_t prev = 0;
      for (int k = 0; k < 2; k++) { auto it = c.GetNewSamplesSlotIndices(M); int n = 0; std::uint16_t got[M];
        for (auto p = it.begin; p != it.end; ++p) { sym_assert(n < M, "too many samples"); std::uint32_t t = v[*p].GetTimeStamp(); sym_assert(t > prev, "a sample is delivered twice or out of publication order while the provider publishes"); sym_assert(t <= start + 2, "an unpublished sample is delivered"); prev = t; got[n++] = *p; sym_reach("delivered"); }
        for (int j = 0; j < n; j++) v.DereferenceEvent(got[j]); } });
  for (int i = 0; i < M; i++) sym_assert(hx::rc(ctl.state_slots_[i].load()) == 0, "a reference is left");
}
extern "C" void h_numnew_par() {
  constexpr int M = 2; hx::HeapResource res; EventDataControl ctl{M, res}; std::uint64_t pre[M]; fill(ctl, pre, M, "slot"); std::uint32_t newest = 0;
  for (int i = 0; i < M; i++) { sym_assume((pre[i] != hx::kInWriting) & (hx::ts(pre[i]) < 0xFFFFFF00u)); newest = hx::ts(pre[i]) > newest ? hx::ts(pre[i]) : newest; }
  std::uint32_t avail = 0, fixed = 0; for (int i = 0; i < M; i++) { avail += hx::ready(pre[i]) ? 1u : 0u; fixed += (hx::ready(pre[i]) & (hx::rc(pre[i]) != 0)) ? 1u : 0u; }
  sym_shared(ctl.state_slots_.data(), sizeof(ControlSlotType) * M, 1);
  sym_par(PRE, 0, 0,
    [&] { ProviderEventDataControlLocalView<> p{ctl}; auto r = p.AllocateNextSlot(); if (r.has_value()) p.EventReady(*r, ++newest); },
    [&] { ConsumerEventDataControlLocalView<> v{ctl}; auto n = v.GetNumNewEvents(0); sym_assert((n <= avail + 1) & (n <= M), "more new samples reported than were ever available"); sym_assert(n >= fixed, "a referenced sample, which nobody may replace, is not counted"); sym_assert(n + 1 >= avail, "one publication in flight hides more than one sample"); sym_reach("counted"); });
}
