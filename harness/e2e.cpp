// SOURCES: @subs @subsm @fakert score/mw/com/impl/bindings/lola/skeleton.cpp score/mw/com/impl/bindings/lola/proxy.cpp score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp score/mw/com/impl/bindings/lola/partial_restart_path_builder.cpp score/mw/com/impl/bindings/lola/shm_path_builder.cpp score/mw/com/impl/bindings/lola/path_builder.cpp score/mw/com/impl/bindings/lola/i_partial_restart_path_builder.cpp score/mw/com/impl/bindings/lola/i_shm_path_builder.cpp score/mw/com/impl/bindings/lola/application_id_pid_mapping.cpp score/mw/com/impl/bindings/lola/application_id_pid_mapping_entry.cpp score/mw/com/impl/bindings/lola/element_fq_id.cpp score/mw/com/impl/bindings/lola/event_control.cpp score/mw/com/impl/bindings/lola/event_meta_info.cpp score/mw/com/impl/bindings/lola/event_data_storage.cpp score/mw/com/impl/bindings/lola/rollback_synchronization.cpp score/mw/com/impl/bindings/lola/service_data_control.cpp score/mw/com/impl/bindings/lola/service_data_storage.cpp score/mw/com/impl/bindings/lola/skeleton_event_properties.cpp score/mw/com/impl/bindings/lola/skeleton_instance_identifier.cpp score/mw/com/impl/bindings/lola/proxy_instance_identifier.cpp score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp score/mw/com/impl/bindings/lola/skeleton_method.cpp score/mw/com/impl/bindings/lola/proxy_method.cpp score/mw/com/impl/bindings/lola/messaging/method_call_registration_guard.cpp score/mw/com/impl/bindings/lola/messaging/method_subscription_registration_guard.cpp score/mw/com/impl/bindings/lola/messaging/method_unsubscription_registration_guard.cpp score/mw/com/impl/bindings/lola/methods/method_data.cpp score/mw/com/impl/bindings/lola/methods/method_error.cpp score/mw/com/impl/bindings/lola/methods/method_resource_map.cpp score/mw/com/impl/bindings/lola/methods/offered_state_machine.cpp score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.cpp score/mw/com/impl/bindings/lola/methods/type_erased_call_queue.cpp score/mw/com/impl/bindings/lola/methods/unique_method_identifier.cpp score/mw/com/impl/bindings/lola/linear_search_map.cpp score/memory/shared/lock_file.cpp score/memory/shared/new_delete_delegate_resource.cpp score/memory/shared/user_permission.cpp score/memory/shared/i_shared_memory_resource.cpp score/memory/shared/flock/flock_mutex.cpp score/memory/shared/flock/exclusive_flock_mutex.cpp score/memory/shared/flock/shared_flock_mutex.cpp score/memory/shared/flock/flock_mutex_and_lock.cpp score/mw/com/impl/proxy_binding.cpp score/mw/com/impl/skeleton_binding.cpp score/mw/com/impl/skeleton_event_binding.cpp score/mw/com/impl/method_type.cpp score/mw/com/impl/instance_identifier.cpp score/mw/com/impl/instance_specifier.cpp score/mw/com/impl/handle_type.cpp score/mw/com/impl/enriched_instance_identifier.cpp score/mw/com/impl/find_service_handle.cpp score/mw/com/impl/service_element_type.cpp score/mw/com/impl/methods/proxy_method_binding.cpp score/mw/com/impl/methods/skeleton_method_binding.cpp score/mw/com/impl/generic_skeleton_event_binding.cpp score/mw/com/impl/configuration/configuration.cpp score/mw/com/impl/configuration/configuration_common_resources.cpp score/mw/com/impl/configuration/configuration_error.cpp score/mw/com/impl/configuration/global_configuration.cpp score/mw/com/impl/configuration/tracing_configuration.cpp score/mw/com/impl/configuration/lola_event_id.cpp score/mw/com/impl/configuration/lola_event_instance_deployment.cpp score/mw/com/impl/configuration/lola_field_id.cpp score/mw/com/impl/configuration/lola_field_instance_deployment.cpp score/mw/com/impl/configuration/lola_method_id.cpp score/mw/com/impl/configuration/lola_method_instance_deployment.cpp score/mw/com/impl/configuration/lola_service_element_id.cpp score/mw/com/impl/configuration/lola_service_id.cpp score/mw/com/impl/configuration/lola_service_instance_deployment.cpp score/mw/com/impl/configuration/lola_service_instance_id.cpp score/mw/com/impl/configuration/lola_service_type_deployment.cpp score/mw/com/impl/configuration/quality_type.cpp score/mw/com/impl/configuration/service_identifier_type.cpp score/mw/com/impl/configuration/service_instance_deployment.cpp score/mw/com/impl/configuration/service_instance_id.cpp score/mw/com/impl/configuration/service_type_deployment.cpp score/mw/com/impl/configuration/service_version_type.cpp score/mw/com/impl/configuration/shm_size_calc_mode.cpp score/memory/shared/shared_memory_resource.cpp score/mw/com/impl/bindings/lola/generic_skeleton_event.cpp score/mw/com/impl/sample_allocatee_tracker.cpp score/mw/com/impl/skeleton_event_binding.cpp score/mw/com/impl/sample_reference_tracker.cpp score/mw/com/impl/tracing/skeleton_event_tracing_data.cpp score/mw/com/impl/sample_allocatee_guard.cpp score/mw/com/impl/bindings/lola/proxy_event_common.cpp score/mw/com/impl/bindings/lola/subscription_state_machine.cpp score/mw/com/impl/bindings/lola/subscription_state_base.cpp
// ENTRY: h_e2e property=C35 reach=sent,polled,nothing,restarted,crashed,consumer_crashed,rejoined,notified,silent,end quick=250 thorough=900 defs=K=5 tdefs=K=7
// BOUND: histories of 5 (7) steps of one provider and one or two consumers (QM, ASIL-B) of one event with 4 slots
// ASSUME: the provider never runs out of slots (C02, C06), consumers take at most 2 samples in all; messages between processes are delivered at once (C30); shared-memory objects are stand-ins (C23, C24)

#include "fake_rt.h"
#include "score/mw/com/impl/bindings/lola/messaging/i_message_passing_service.h"
namespace { struct Hub final : Messaging { int notified[2] = {0, 0}; HandlerStatusChangeCallback cb[2]; bool told[2] = {false, false}; static int at(QualityType q) { return q == QualityType::kASIL_B ? 1 : 0; }
  void NotifyEvent(const QualityType q, const ElementFqId e) noexcept override { sym_assert(e.element_id_ == 5, "another event is notified"); notified[at(q)]++; }
  void RegisterEventNotificationExistenceChangedCallback(const QualityType q, const ElementFqId, HandlerStatusChangeCallback c) noexcept override { sym_assert(!cb[at(q)], "registered twice"); cb[at(q)] = std::move(c); told[at(q)] = false; }
  void UnregisterEventNotificationExistenceChangedCallback(const QualityType q, const ElementFqId) noexcept override { sym_assert(static_cast<bool>(cb[at(q)]), "not registered"); cb[at(q)] = {}; told[at(q)] = false; } }; }
#define MESSAGING Hub
#include "life.h"
#include "score/mw/com/impl/bindings/lola/proxy_event.h"
#include "score/mw/com/impl/sample_reference_tracker.h"
namespace {
using Pay = std::uint32_t; constexpr int NSLOT = 4; constexpr int kTake = 2;
struct Slot { std::uint32_t seq = 0; Pay val = 0; int refs = 0; bool writing = false; };
struct Held { I::SamplePtr<Pay> p; Pay val; int slot; };
std::vector<Slot> M; std::uint32_t g_seq, g_lost;
struct Prov { std::unique_ptr<L::SkeletonEvent<Pay>> e; std::optional<I::SampleAllocateePtr<Pay>> w; int wslot = -1; } G;
struct Cons { std::unique_ptr<L::ProxyEvent<Pay>> e; std::unique_ptr<I::SampleReferenceTracker> t; std::vector<Held> held; std::vector<int> lost; std::uint32_t last = 0; std::size_t n = 0; bool sub = false, handler = false; std::shared_ptr<I::ScopedEventReceiveHandler> h; } Q[2];
score::safecpp::Scope<>* g_scope;
I::LolaServiceInstanceDeployment::EventInstanceMapping ev4() { I::LolaServiceInstanceDeployment::EventInstanceMapping m; m.emplace("e", I::LolaEventInstanceDeployment{std::uint16_t{NSLOT}, std::uint8_t{2}, std::uint8_t{1}, true, 0}); return m; }
void tell() { // what the real messaging reports to the provider
  if (!P[0].up) return; for (int q = 0; q < 2; q++) { bool any = false; for (int c = 0; c < 2; c++) if (C[c].p && C[c].b == (q == 1) && R[2 + c]->m.registered && R[2 + c]->m.pid == R[0]->l.my_pid) any = true; auto& m = R[0]->m; if (m.cb[q] && m.told[q] != any) { as(0); m.told[q] = any; m.cb[q](any); } } }
void start() { sym_assert(create(0), "the provider cannot start"); as(0); auto& x = P[0]; G.e = std::make_unique<L::SkeletonEvent<Pay>>(*x.s, kE, "e", I::detail::CreateSkeletonEventProperties(ev4().at("e"), std::nullopt), I::tracing::SkeletonEventTracingData{}); }
void up() { as(0); I::SkeletonBinding::SkeletonEventBindings ev, fi; ev.emplace("e", *G.e); bool users = C[0].p || C[1].p; if (!users) { M.assign(NSLOT, Slot{}); for (auto& q : Q) q.lost.clear(); } sym_assert(P[0].s->PrepareOffer(ev, fi, std::nullopt).has_value(), "the service cannot be offered"); sym_assert(G.e->PrepareOffer().has_value(), "the event cannot be offered"); P[0].up = true;
  for (auto& s : M) if (s.writing) s = Slot{0, 0, s.refs, false}; for (int c = 0; c < 2; c++) if (C[c].p) announce(c); tell(); }
void down() { as(0); G.e->PrepareStopOffer(); P[0].s->PrepareStopOffer(std::nullopt); P[0].up = false; P[0].stopped = true; for (int c = 0; c < 2; c++) if (C[c].p) announce(c); }
int pick() { int k = -1; for (int i = 0; i < NSLOT; i++) if (!M[i].writing && M[i].refs == 0 && (k < 0 || M[i].seq < M[k].seq)) k = i; return k; }
void join(int c) { sym_assert(connect(c, c == 1), "a consumer cannot connect"); as(2 + c); auto& q = Q[c]; for (int s : q.lost) M[s].refs--; q = Cons{}; q.e = std::make_unique<L::ProxyEvent<Pay>>(*C[c].p, kE, "e"); q.h = std::make_shared<I::ScopedEventReceiveHandler>(*g_scope, []() noexcept {}); announce(c); sym_assert(q.e->GetSubscriptionState() == I::SubscriptionState::kNotSubscribed, "a new consumer is not subscribed"); }
int avail(const Cons& q) { int n = 0; for (auto& s : M) n += !s.writing && s.seq > q.last; return n; }
void check() {
  for (int c = 0; c < 2; c++) { auto& q = Q[c]; if (!C[c].p) continue; as(2 + c); for (auto& h : q.held) sym_assert(*h.p == h.val, "a sample changes while a consumer holds it");
    auto st = q.e->GetSubscriptionState(); sym_assert(st == (!q.sub ? I::SubscriptionState::kNotSubscribed : P[0].up ? I::SubscriptionState::kSubscribed : I::SubscriptionState::kSubscriptionPending), "subscription state"); auto n = q.e->GetNumNewSamplesAvailable(); sym_assert(n.has_value() == q.sub && (!q.sub || *n == static_cast<std::size_t>(avail(q))), "number of new samples"); } }
void sent(std::uint32_t v, int slot, int n0, int n1) { M[slot] = Slot{++g_seq, v, 0, false}; for (int q = 0; q < 2; q++) { int d = R[0]->m.notified[q] - (q ? n1 : n0); bool want = false; for (int c = 0; c < 2; c++) want |= C[c].p && C[c].b == (q == 1) && Q[c].sub && Q[c].handler; sym_assert(d == (want ? 1 : 0), "an update is notified exactly if somebody waits for it"); sym_reach(want ? "notified" : "silent"); } }
}
extern "C" void h_e2e() {
  const bool b = flip("ASIL-B"); setup(new Dep{b, {}, {}, false, ev4()}, b); g_scope = new score::safecpp::Scope<>; M.assign(NSLOT, Slot{}); start(); up(); join(0); if (b) join(1); std::uint32_t v = 100;
  for (int i = 0; i < K; i++) {
    int op = sym_choose(9, "op"); int c = b && op >= 3 && op != 7 ? sym_choose(2, "which consumer") : 0; auto& q = Q[c]; auto& m = R[0]->m; int n0 = m.notified[0], n1 = m.notified[1]; bool live = C[c].p != nullptr; int total = 0; for (auto& s : M) total += s.refs > 0;
    if (op == 0) { sym_assume(P[0].up && !G.w && total < NSLOT - 1); as(0); int k = pick(); sym_assert(G.e->Send(v = sym_u32("sample"), std::nullopt, I::SampleAllocateeGuard{}).has_value(), "a sample cannot be sent"); sent(v, k, n0, n1); sym_reach("sent"); }
    else if (op == 1) { sym_assume(P[0].up && !G.w && total < NSLOT - 1); as(0); int k = pick(); auto r = G.e->Allocate(I::SampleAllocateeGuard{}); sym_assert(r.has_value(), "no slot for a sample"); *(*r).Get() = v = sym_u32("sample"); G.w.emplace(std::move(*r)); G.wslot = k; M[k] = Slot{0, v, 0, true}; }
    else if (op == 2) { sym_assume(P[0].up && G.w.has_value()); as(0); if (flip("send")) { auto w = std::move(*G.w); Pay val = *w.Get(); G.w.reset(); sym_assert(G.e->Send(std::move(w), std::nullopt).has_value(), "a sample cannot be sent"); sent(val, G.wslot, n0, n1); } else { G.w.reset(); M[G.wslot] = Slot{}; } }
    else if (op == 3) { sym_assume(live); as(2 + c); if (!q.sub) { q.n = static_cast<std::size_t>(1 + sym_choose(2, "samples")); sym_assume(P[0].up); sym_assert(q.e->Subscribe(q.n).has_value(), "a consumer cannot subscribe"); q.sub = true; q.last = 0; q.t = std::make_unique<I::SampleReferenceTracker>(q.n); sym_assert(q.e->GetMaxSampleCount() == static_cast<std::uint16_t>(q.n), "number of samples subscribed"); } else { sym_assume(q.held.empty()); q.e->Unsubscribe(); q.sub = q.handler = false; } tell(); }
    else if (op == 4) { sym_assume(live && q.sub); as(2 + c); if (!q.handler) { sym_assert(q.e->SetReceiveHandler(q.h).has_value(), "handler"); q.handler = true; } else { sym_assert(q.e->UnsetReceiveHandler().has_value(), "handler"); q.handler = false; } tell(); }
    else if (op == 5) { sym_assume(live && q.sub); as(2 + c); const std::size_t max = static_cast<std::size_t>(1 + sym_choose(2, "how many")); const std::size_t free = q.n - q.held.size(); std::size_t want = static_cast<std::size_t>(avail(q)); if (want > max) want = max; if (want > free) want = free; sym_assume(total + static_cast<int>(want) <= kTake);
      std::vector<std::uint32_t> seqs; for (auto& s : M) if (!s.writing && s.seq > q.last) seqs.push_back(s.seq); for (std::size_t x = 0; x < seqs.size(); x++) for (std::size_t y = x + 1; y < seqs.size(); y++) if (seqs[y] < seqs[x]) std::swap(seqs[x], seqs[y]); std::size_t k = seqs.size() - want;
      auto f = q.t->Allocate(max); auto r = q.e->GetNewSamples([&](I::SamplePtr<Pay> p, auto) noexcept { sym_assert(k < seqs.size(), "more samples than there are"); int at = 0; while (M[at].seq != seqs[k]) at++; sym_assert(*p == M[at].val, "a consumer gets other data than what was sent, or in another order"); M[at].refs++; q.last = seqs[k]; q.held.push_back(Held{std::move(p), M[at].val, at}); k++; }, f);
      sym_assert(r.has_value() && *r == want && k == seqs.size(), "a consumer misses samples"); sym_reach(want ? "polled" : "nothing"); }
    else if (op == 6) { sym_assume(live && !q.held.empty()); as(2 + c); M[q.held[0].slot].refs--; q.held.erase(q.held.begin()); }
    else if (op == 7) { int how = sym_choose(3, "restart"); if (P[0].up) { sym_assume(how != 2); if (how == 0) { sym_assume(!G.w); down(); } else { sym_reach("crashed"); (void)G.e.release(); if (G.w) { auto* w = new I::SampleAllocateePtr<Pay>{std::move(*G.w)}; (void)w; G.w.reset(); } crash(0); for (int x = 0; x < 2; x++) if (C[x].p) announce(x); } } else { sym_assume(how == 2); sym_reach("restarted"); if (!P[0].s) start(); up(); } }
    else { if (live) { sym_reach("consumer_crashed"); (void)q.e.release(); (void)q.t.release(); auto* h = new std::vector<Held>{std::move(q.held)}; std::vector<int> l; for (auto& x : *h) l.push_back(x.slot); q = Cons{}; q.lost = l; crash(2 + c); tell(); } else { sym_assume(P[0].up); sym_reach("rejoined"); join(c); } }
    check();
  }
  sym_reach("end");
}
