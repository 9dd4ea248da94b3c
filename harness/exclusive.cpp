// SOURCES: @slots
// ENTRY: h_excl_1p1c property=C01 reach=read,reread,alloc quick=150 thorough=900 defs=PRE=3 tdefs=PRE=5
// ENTRY: h_excl_1p2c property=C01 reach=read,alloc quick=150 thorough=900 defs=PRE=2 tdefs=PRE=3
// BOUND: 2 sample slots with any reachable content, one provider publishing twice, one or two consumers taking and releasing a sample, every schedule with at most PRE preemptions (switches at blocking/ending points are free)
#include "hx.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
using namespace score::mw::com::impl::lola;
#ifndef PRE
#define PRE 2
#endif
namespace {
constexpr int N = 2;
struct World {
  hx::HeapResource res; EventDataControl ctl{N, res}; std::uint64_t pre[N]; std::uint32_t payload[N]; std::uint32_t newest = 0; int holders[N] = {};
  World() {
    for (int i = 0; i < N; i++) { std::uint64_t v = hx::sym_slot("slot", 0); sym_assume(v != hx::kInWriting); sym_assume(hx::ts(v) < 0xFFFFFF00u); pre[i] = v; payload[i] = hx::ts(v); ctl.state_slots_[i].store(v); newest = hx::ts(v) > newest ? hx::ts(v) : newest; }
    for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) sym_assume((hx::ts(pre[i]) != hx::ts(pre[j])) | (hx::ts(pre[i]) == 0));
    sym_shared(ctl.state_slots_.data(), sizeof(ControlSlotType) * N, 1); sym_shared(payload, sizeof(payload), 3);
  }
  void produce(int n) {
    ProviderEventDataControlLocalView<> v{ctl};
    for (int k = 0; k < n; k++) {
      auto r = v.AllocateNextSlot(); if (!r.has_value()) { sym_reach("noalloc"); continue; }
      std::uint16_t s = *r; sym_assert(holders[s] == 0, "a slot a consumer holds was handed out for writing"); sym_reach("alloc");
      payload[s] = 0; ++newest; payload[s] = newest; v.EventReady(s, newest);
    }
  }
  void consume(int n) {
    TransactionLog log{N, res}; TransactionLogLocalView lv{log}; ConsumerEventDataControlLocalView<> v{ctl, lv}; std::uint32_t last = 0;
    for (int k = 0; k < n; k++) {
      auto r = v.ReferenceNextEvent(last); if (!r.has_value()) continue;
      std::uint16_t s = *r; sym_assert(s < N, "slot index in range"); holders[s]++;
      std::uint32_t t = v[s].GetTimeStamp();
      sym_assert(t > last, "a sample is delivered a second time or out of order");
      sym_assert(payload[s] == t, "payload is torn or not the one published under this timestamp"); sym_reach("read");
      sym_assert(payload[s] == t, "payload changes while the consumer holds the sample"); sym_reach("reread");
      holders[s]--; v.DereferenceEvent(s); last = t;
    }
  }
};
}
extern "C" void h_excl_1p1c() {
  World w; sym_par(PRE, 0, 0, [&] { w.produce(2); }, [&] { w.consume(2); });
  for (int i = 0; i < N; i++) sym_assert(w.ctl.state_slots_[i].load() == 0 || hx::rc(w.ctl.state_slots_[i].load()) == 0, "a reference is left although every sample was released");
}
extern "C" void h_excl_1p2c() {
  World w; sym_par(PRE, 0, 0, [&] { w.produce(2); }, [&] { w.consume(1); }, [&] { w.consume(1); });
  for (int i = 0; i < N; i++) sym_assert(w.ctl.state_slots_[i].load() == 0 || hx::rc(w.ctl.state_slots_[i].load()) == 0, "a reference is left although every sample was released");
}
