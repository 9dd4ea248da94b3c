// SOURCES: @slots
// ENTRY: h_comp_policy property=C05 reach=both,fallback,none,discard,publish quick=120 thorough=800 defs=NS=3 tdefs=NS=4
// ENTRY: h_comp_par property=C05 reach=alloc,qm_read,b_read quick=150 thorough=900 defs=PRE=2 tdefs=PRE=3
// ENTRY: h_qm_corrupt property=C06 reach=alloc,full,disconnected quick=150 thorough=900 defs=NS=3 tdefs=NS=4
// ENTRY: h_qm_corrupt_par property=C06 reach=alloc quick=150 thorough=900 defs=PRE=2 tdefs=PRE=3
// BOUND: 3 sample slots (4 thorough) for the sequential policy, 3 (4) for corrupted QM slots, 2 for interleavings; every content of every slot word; schedules with at most 2 (3) preemptions for three threads and 4 (5) for two
// ASSUME: one thread at a time publishes an event (the documented contract of the publishing side)
#include "hx.h"
#include "score/mw/com/impl/bindings/lola/event_data_control_composite.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
using namespace score::mw::com::impl::lola;
#ifndef NS
#define NS 2
#endif
#ifndef PRE
#define PRE 2
#endif
namespace {
constexpr int N = NS;
bool usable(std::uint64_t v) { return (v == 0) | (hx::ready(v) & (hx::rc(v) == 0)); }
}
// both sections describe the same slots (same stage, same timestamp), only the numbers of references differ
extern "C" void h_comp_policy() {
  hx::HeapResource res; EventDataControl qm{N, res}, b{N, res}; std::uint64_t pq[N], pb[N];
  bool any_free = false, any_both = false, any_b = false; std::uint32_t oldest = ~0u, latest = 0;
  for (int i = 0; i < N; i++) {
    std::uint64_t v = hx::sym_slot("slot"); sym_assume(hx::ts(v) != 0xFFFFFFFFu); std::uint32_t r = sym_u32("qm_ref"); sym_assume(r <= 1000); pb[i] = v; pq[i] = hx::ready(v) ? hx::slot(hx::ts(v), r) : v;
    for (int j = 0; j < i; j++) sym_assume((hx::ts(v) != hx::ts(pb[j])) | (hx::ts(v) == 0));
    qm.state_slots_[i].store(pq[i]); b.state_slots_[i].store(pb[i]);
    bool u = usable(pq[i]) & usable(pb[i]); any_free |= v == 0; any_both |= u; any_b |= usable(v); oldest = (u & (v != 0) & (hx::ts(v) < oldest)) ? hx::ts(v) : oldest; latest = (hx::ready(v) & (hx::ts(v) > latest)) ? hx::ts(v) : latest;
  }
  ProviderEventDataControlLocalView<> vq{qm}, vb{b}; EventDataControlComposite<> c{vq, &vb};
  sym_assert(c.GetLatestTimestamp() == latest, "the latest timestamp is not that of the newest published sample");
  auto r = c.AllocateNextSlot();
  sym_assert(r.allocated_slot_index.has_value() == any_b, "allocation must succeed exactly if the ASIL-B section has a free or unreferenced slot");
  if (any_both) sym_assert(!r.qm_misbehaved, "QM consumers are cut off although a slot was available in both sections");
  sym_assert(r.qm_misbehaved == c.IsQmControlDisconnected(), "reported and recorded QM state differ");
  if (!r.allocated_slot_index.has_value()) { for (int i = 0; i < N; i++) sym_assert((b.state_slots_[i].load() == pb[i]) & (qm.state_slots_[i].load() == pq[i]), "failed allocation changes a slot"); sym_reach("none"); return; }
  std::uint16_t k = *r.allocated_slot_index; sym_assert(k < N, "slot out of range"); k = sym_concretize(k); bool dis = c.IsQmControlDisconnected();
  sym_assert(usable(pb[k]), "a slot an ASIL-B consumer references (or which is being written) was handed out"); sym_assert(b.state_slots_[k].load() == hx::kInWriting, "slot not marked as being written for ASIL-B");
  if (!dis) { sym_reach("both"); sym_assert(usable(pq[k]), "a slot a QM consumer references was handed out"); sym_assert(qm.state_slots_[k].load() == hx::kInWriting, "slot not marked as being written for QM"); if (any_free) sym_assert(pb[k] == 0, "a published sample is overwritten although a slot is free"); else sym_assert(hx::ts(pb[k]) == oldest, "not the oldest unreferenced sample is overwritten"); }
  else { sym_reach("fallback"); sym_assert(qm.state_slots_[k].load() == pq[k], "a cut off QM section is modified"); }
  for (int i = 0; i < N; i++) if (i != k) sym_assert((b.state_slots_[i].load() == pb[i]) & (qm.state_slots_[i].load() == pq[i]), "allocation changes another slot");
  if (sym_choose(2, "then")) {
    c.Discard(k); sym_reach("discard"); sym_assert(b.state_slots_[k].load() == 0, "discarded slot is not free for ASIL-B"); sym_assert(qm.state_slots_[k].load() == (dis ? pq[k] : 0), "discarded slot is not free for QM, or a cut off QM section is modified");
  } else {
    std::uint32_t t = sym_u32("ts"); sym_assume((t > latest) & (t != 0xFFFFFFFFu)); c.EventReady(k, t); sym_reach("publish");
    sym_assert(b.state_slots_[k].load() == hx::slot(t, 0), "sample not published to ASIL-B consumers"); sym_assert(qm.state_slots_[k].load() == (dis ? pq[k] : hx::slot(t, 0)), "sample not published to QM consumers, or a cut off QM section is modified");
    sym_assert(c.GetEventSlotTimestamp(k) == t, "timestamp of the published slot"); sym_assert(c.GetLatestTimestamp() == t, "latest timestamp after publication");
  }
  for (int i = 0; i < N; i++) if (i != k) sym_assert((b.state_slots_[i].load() == pb[i]) & (qm.state_slots_[i].load() == pq[i]), "publishing or discarding changes another slot");
}
extern "C" void h_comp_par() {
  constexpr int M = 2; hx::HeapResource res; EventDataControl qm{M, res}, b{M, res}; std::uint32_t payload[M], newest = 0; int holders[M] = {};
  for (int i = 0; i < M; i++) { std::uint32_t t = sym_u32("ts"); sym_assume(t < 0xFFFFFF00u); payload[i] = t; qm.state_slots_[i].store(hx::slot(t, 0)); b.state_slots_[i].store(hx::slot(t, 0)); newest = t > newest ? t : newest; }
  sym_assume((payload[0] != payload[1]) | (payload[0] == 0));
  sym_shared(qm.state_slots_.data(), sizeof(ControlSlotType) * M, 1); sym_shared(b.state_slots_.data(), sizeof(ControlSlotType) * M, 1); sym_shared(payload, sizeof(payload), 3);
  auto consumer = [&](EventDataControl& ctl, bool q) { TransactionLog log{M, res}; TransactionLogLocalView lv{log}; ConsumerEventDataControlLocalView<> v{ctl, lv};
    auto r = v.ReferenceNextEvent(0); if (!r.has_value()) return; std::uint16_t s = *r; holders[s]++; std::uint32_t t = v[s].GetTimeStamp(); sym_assert(payload[s] == t, "a consumer of a mixed-criticality event reads a payload that is not the one published under this timestamp"); sym_reach(q ? "qm_read" : "b_read"); holders[s]--; v.DereferenceEvent(s); };
  auto provider = [&] { ProviderEventDataControlLocalView<> vq{qm}, vb{b}; EventDataControlComposite<> c{vq, &vb};
      for (int k = 0; k < 2; k++) { auto r = c.AllocateNextSlot(); sym_assert(!r.qm_misbehaved, "well-behaved QM consumers are cut off"); if (!r.allocated_slot_index.has_value()) continue; std::uint16_t s = *r.allocated_slot_index; sym_assert(holders[s] == 0, "a slot held by a consumer was handed out"); sym_reach("alloc"); payload[s] = 0; ++newest; payload[s] = newest; c.EventReady(s, newest); } };
  auto qc = [&] { consumer(qm, true); }; auto bc = [&] { consumer(b, false); };
  switch (sym_choose(3, "consumers")) { case 0: sym_par(PRE, 0, 0, provider, qc, bc); break; case 1: sym_par(PRE + 2, 0, 0, provider, qc); break; default: sym_par(PRE + 2, 0, 0, provider, bc); }
  for (int i = 0; i < M; i++) sym_assert((hx::rc(qm.state_slots_[i].load()) == 0) & (hx::rc(b.state_slots_[i].load()) == 0) & (qm.state_slots_[i].load() == b.state_slots_[i].load()), "sections differ after all activity has ended");
}
// the QM section holds arbitrary bits: QM processes may write anything there
extern "C" void h_qm_corrupt() {
  hx::HeapResource res; EventDataControl qm{N, res}, b{N, res}; std::uint64_t pb[N]; bool any_b = false;
  for (int i = 0; i < N; i++) { std::uint64_t v = hx::sym_slot("slot"); sym_assume(hx::ts(v) != 0xFFFFFFFFu); pb[i] = v; b.state_slots_[i].store(v); qm.state_slots_[i].store(sym_u64("qm_bits")); any_b |= usable(v); }
  ProviderEventDataControlLocalView<> vq{qm}, vb{b}; EventDataControlComposite<> c{vq, &vb};
  auto r = c.AllocateNextSlot();
  sym_assert(r.allocated_slot_index.has_value() == any_b, "ASIL-B allocation must succeed exactly if the ASIL-B section has a free or unreferenced slot, whatever the QM section contains");
  if (c.IsQmControlDisconnected()) sym_reach("disconnected");
  if (!r.allocated_slot_index.has_value()) { sym_reach("full"); return; }
  std::uint16_t k = *r.allocated_slot_index; sym_assert(k < N, "slot out of range"); k = sym_concretize(k); sym_reach("alloc");
  sym_assert(usable(pb[k]), "corrupted QM slots make the provider overwrite a sample an ASIL-B consumer holds"); sym_assert(b.state_slots_[k].load() == hx::kInWriting, "slot not marked as being written");
  for (int i = 0; i < N; i++) if (i != k) sym_assert(b.state_slots_[i].load() == pb[i], "another ASIL-B slot changes");
  for (int i = 0; i < N; i++) qm.state_slots_[i].store(sym_u64("qm_bits_later"));
  c.EventReady(k, 0xFFFFFF00u); sym_assert(b.state_slots_[k].load() == hx::slot(0xFFFFFF00u, 0), "sample not published to ASIL-B consumers");
  auto r2 = c.AllocateNextSlot(); sym_assert(r2.allocated_slot_index.has_value(), "the next ASIL-B allocation fails although the slot just published is unreferenced");
  std::uint16_t k2 = sym_concretize(*r2.allocated_slot_index); sym_assert(k2 < N && (k2 == k || usable(pb[k2])), "second allocation hands out a used slot");
}
extern "C" void h_qm_corrupt_par() {
  constexpr int M = 2; hx::HeapResource res; EventDataControl qm{M, res}, b{M, res}; bool any_b = false; std::uint64_t pb[M];
  for (int i = 0; i < M; i++) { std::uint64_t v = hx::sym_slot("slot", 1); sym_assume(hx::ts(v) != 0xFFFFFFFFu); pb[i] = v; b.state_slots_[i].store(v); qm.state_slots_[i].store(v); any_b |= usable(v); }
  sym_assume((hx::ts(pb[0]) != hx::ts(pb[1])) | (hx::ts(pb[0]) == 0));
  sym_shared(qm.state_slots_.data(), sizeof(ControlSlotType) * M, 1);
  sym_par(PRE, 0, 0,
    [&] { ProviderEventDataControlLocalView<> vq{qm}, vb{b}; EventDataControlComposite<> c{vq, &vb}; auto r = c.AllocateNextSlot(); sym_assert(r.allocated_slot_index.has_value() == any_b, "ASIL-B allocation depends on what a QM process writes meanwhile"); if (r.allocated_slot_index.has_value()) { sym_reach("alloc"); sym_assert(usable(pb[sym_concretize(*r.allocated_slot_index)]), "a used ASIL-B slot was handed out"); } },
    [&] { int s = sym_choose(M, "victim"); qm.state_slots_[s].store(sym_u64("bits")); qm.state_slots_[s].store(sym_u64("bits")); });
}
