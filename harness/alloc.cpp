// SOURCES: @slots
// ENTRY: h_alloc_policy property=C02 reach=allocated,full,free_slot,oldest quick=120 thorough=600 tdefs=NSLOTS=6
// ENTRY: h_alloc_restart property=C11 reach=end quick=60 thorough=300 tdefs=NSLOTS=6
// BOUND: events with 4 sample slots (quick) / 6 (thorough), every content of every slot word
#include "hx.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
using namespace score::mw::com::impl::lola;
#ifndef NSLOTS
#define NSLOTS 4
#endif
extern "C" void h_alloc_policy() {
  hx::HeapResource res; EventDataControl ctl{NSLOTS, res}; std::uint64_t pre[NSLOTS];
  bool any_free = false, any_unused = false; std::uint32_t oldest = 0xFFFFFFFFu;
  for (int i = 0; i < NSLOTS; i++) { pre[i] = hx::sym_slot("slot"); sym_assume(hx::ts(pre[i]) != 0xFFFFFFFFu); ctl.state_slots_[i].store(pre[i]); }
  for (int i = 0; i < NSLOTS; i++) { any_free |= pre[i] == 0; bool un = hx::ready(pre[i]) & (hx::rc(pre[i]) == 0); any_unused |= un; oldest = (un & (hx::ts(pre[i]) < oldest)) ? hx::ts(pre[i]) : oldest; }
  ProviderEventDataControlLocalView<> v{ctl};
  auto r = v.AllocateNextSlot();
  if (!r.has_value()) {
    sym_assert(!any_free & !any_unused, "allocation fails although a slot is free or unreferenced");
    for (int i = 0; i < NSLOTS; i++) sym_assert(ctl.state_slots_[i].load() == pre[i], "a failing allocation changes a slot");
    sym_reach("full"); return;
  }
  sym_reach("allocated");
  std::uint16_t k = *r; sym_assert(k < NSLOTS, "allocated slot out of range");
  k = sym_concretize(k);
  sym_assert(hx::rc(pre[k]) == 0, "a slot in use (referenced or being written) was allocated");
  for (int i = 0; i < NSLOTS; i++) if (i != k) sym_assert(ctl.state_slots_[i].load() == pre[i], "allocation changes another slot");
  sym_assert(ctl.state_slots_[k].load() == hx::kInWriting, "allocated slot not marked as being written");
  if (pre[k] == 0) sym_reach("free_slot");
  else { sym_reach("oldest"); sym_assert(!any_free, "a published sample was overwritten although a free slot existed"); sym_assert(hx::ts(pre[k]) == oldest, "overwritten sample is not the oldest unused one"); }
  sym_observe(k);
}
extern "C" void h_alloc_restart() {
  hx::HeapResource res; EventDataControl ctl{NSLOTS, res}; std::uint64_t pre[NSLOTS];
  for (int i = 0; i < NSLOTS; i++) { pre[i] = hx::sym_slot("slot"); ctl.state_slots_[i].store(pre[i]); }
  ProviderEventDataControlLocalView<> v{ctl};
  v.RemoveAllocationsForWriting();
  for (int i = 0; i < NSLOTS; i++) sym_assert(ctl.state_slots_[i].load() == (pre[i] == hx::kInWriting ? 0 : pre[i]), "restart reclaims exactly the slots left in writing");
  sym_reach("end");
}
