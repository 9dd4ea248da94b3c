// SOURCES: @subs @subsm @fakert score/mw/com/impl/bindings/lola/skeleton.cpp score/mw/com/impl/bindings/lola/proxy.cpp score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp score/mw/com/impl/bindings/lola/partial_restart_path_builder.cpp score/mw/com/impl/bindings/lola/shm_path_builder.cpp score/mw/com/impl/bindings/lola/path_builder.cpp score/mw/com/impl/bindings/lola/i_partial_restart_path_builder.cpp score/mw/com/impl/bindings/lola/i_shm_path_builder.cpp score/mw/com/impl/bindings/lola/application_id_pid_mapping.cpp score/mw/com/impl/bindings/lola/application_id_pid_mapping_entry.cpp score/mw/com/impl/bindings/lola/element_fq_id.cpp score/mw/com/impl/bindings/lola/event_control.cpp score/mw/com/impl/bindings/lola/event_meta_info.cpp score/mw/com/impl/bindings/lola/event_data_storage.cpp score/mw/com/impl/bindings/lola/rollback_synchronization.cpp score/mw/com/impl/bindings/lola/service_data_control.cpp score/mw/com/impl/bindings/lola/service_data_storage.cpp score/mw/com/impl/bindings/lola/skeleton_event_properties.cpp score/mw/com/impl/bindings/lola/skeleton_instance_identifier.cpp score/mw/com/impl/bindings/lola/proxy_instance_identifier.cpp score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp score/mw/com/impl/bindings/lola/skeleton_method.cpp score/mw/com/impl/bindings/lola/proxy_method.cpp score/mw/com/impl/bindings/lola/messaging/method_call_registration_guard.cpp score/mw/com/impl/bindings/lola/messaging/method_subscription_registration_guard.cpp score/mw/com/impl/bindings/lola/messaging/method_unsubscription_registration_guard.cpp score/mw/com/impl/bindings/lola/methods/method_data.cpp score/mw/com/impl/bindings/lola/methods/method_error.cpp score/mw/com/impl/bindings/lola/methods/method_resource_map.cpp score/mw/com/impl/bindings/lola/methods/offered_state_machine.cpp score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.cpp score/mw/com/impl/bindings/lola/methods/type_erased_call_queue.cpp score/mw/com/impl/bindings/lola/methods/unique_method_identifier.cpp score/mw/com/impl/bindings/lola/linear_search_map.cpp score/memory/shared/lock_file.cpp score/memory/shared/new_delete_delegate_resource.cpp score/memory/shared/user_permission.cpp score/memory/shared/i_shared_memory_resource.cpp score/memory/shared/flock/flock_mutex.cpp score/memory/shared/flock/exclusive_flock_mutex.cpp score/memory/shared/flock/shared_flock_mutex.cpp score/memory/shared/flock/flock_mutex_and_lock.cpp score/mw/com/impl/proxy_binding.cpp score/mw/com/impl/skeleton_binding.cpp score/mw/com/impl/skeleton_event_binding.cpp score/mw/com/impl/method_type.cpp score/mw/com/impl/instance_identifier.cpp score/mw/com/impl/instance_specifier.cpp score/mw/com/impl/handle_type.cpp score/mw/com/impl/enriched_instance_identifier.cpp score/mw/com/impl/find_service_handle.cpp score/mw/com/impl/service_element_type.cpp score/mw/com/impl/methods/proxy_method_binding.cpp score/mw/com/impl/methods/skeleton_method_binding.cpp score/mw/com/impl/generic_skeleton_event_binding.cpp score/mw/com/impl/configuration/configuration.cpp score/mw/com/impl/configuration/configuration_common_resources.cpp score/mw/com/impl/configuration/configuration_error.cpp score/mw/com/impl/configuration/global_configuration.cpp score/mw/com/impl/configuration/tracing_configuration.cpp score/mw/com/impl/configuration/lola_event_id.cpp score/mw/com/impl/configuration/lola_event_instance_deployment.cpp score/mw/com/impl/configuration/lola_field_id.cpp score/mw/com/impl/configuration/lola_field_instance_deployment.cpp score/mw/com/impl/configuration/lola_method_id.cpp score/mw/com/impl/configuration/lola_method_instance_deployment.cpp score/mw/com/impl/configuration/lola_service_element_id.cpp score/mw/com/impl/configuration/lola_service_id.cpp score/mw/com/impl/configuration/lola_service_instance_deployment.cpp score/mw/com/impl/configuration/lola_service_instance_id.cpp score/mw/com/impl/configuration/lola_service_type_deployment.cpp score/mw/com/impl/configuration/quality_type.cpp score/mw/com/impl/configuration/service_identifier_type.cpp score/mw/com/impl/configuration/service_instance_deployment.cpp score/mw/com/impl/configuration/service_instance_id.cpp score/mw/com/impl/configuration/service_type_deployment.cpp score/mw/com/impl/configuration/service_version_type.cpp score/mw/com/impl/configuration/shm_size_calc_mode.cpp score/memory/shared/shared_memory_resource.cpp score/mw/com/impl/bindings/lola/generic_skeleton_event.cpp score/mw/com/impl/sample_allocatee_tracker.cpp score/mw/com/impl/skeleton_event_binding.cpp score/mw/com/impl/sample_reference_tracker.cpp score/mw/com/impl/tracing/skeleton_event_tracing_data.cpp score/mw/com/impl/sample_allocatee_guard.cpp score/mw/com/impl/bindings/lola/proxy_event_common.cpp score/mw/com/impl/bindings/lola/subscription_state_machine.cpp score/mw/com/impl/bindings/lola/subscription_state_base.cpp
// ENTRY: h_calls property=C36 reach=called,refused,handler_missing,withdrawn,crashed,restarted,rejoined,left,failed,end quick=250 thorough=900 defs=K=4 tdefs=K=6
// BOUND: histories of 5 (6) steps of one provider and a QM and an ASIL-B consumer of one service with two methods and a field getter; symbolic arguments and results
// ASSUME: messages between processes are delivered at once, to the handler registered for their quality (C31); shared-memory objects are stand-ins (C23, C24)

#include "fake_rt.h"
#include "score/mw/com/impl/bindings/lola/messaging/i_message_passing_service.h"
#include "score/mw/com/impl/bindings/lola/messaging/method_call_registration_guard.h"
#include "score/mw/com/impl/bindings/lola/messaging/method_subscription_registration_guard.h"
#include "score/mw/com/impl/bindings/lola/messaging/method_unsubscription_registration_guard.h"
namespace { struct Hub; struct CallEnd { QualityType q; ProxyMethodInstanceIdentifier id; uid_t uid; IMessagePassingService::MethodCallHandler h; };
Hub* hub_of(pid_t p); int g_fail = 0; struct From { pid_t pid; uid_t uid; int proc; }; From from(); void enter(pid_t p); void back(int proc);
struct Hub final : Messaging { score::safecpp::Scope<> scope; std::optional<ServiceMethodSubscribedHandler> sub[2]; std::optional<ServiceMethodUnsubscribedHandler> unsub[2]; AllowedConsumerUids allowed[2]; std::vector<CallEnd> ends; static int at(QualityType q) { return q == QualityType::kASIL_B ? 1 : 0; }
  void chk(const SkeletonInstanceIdentifier& s) { sym_assert(s == SkeletonInstanceIdentifier{7, 1}, "another service instance"); }
  score::Result<MethodSubscriptionRegistrationGuard> RegisterOnServiceMethodSubscribedHandler(const QualityType q, const SkeletonInstanceIdentifier s, ServiceMethodSubscribedHandler h, AllowedConsumerUids a) override { chk(s); sym_assert(!sub[at(q)], "registered twice"); sub[at(q)].emplace(std::move(h)); allowed[at(q)] = std::move(a); return MethodSubscriptionRegistrationGuardFactory::Create(*this, q, s, scope); }
  score::Result<MethodUnsubscriptionRegistrationGuard> RegisterOnServiceMethodUnsubscribedHandler(const QualityType q, const SkeletonInstanceIdentifier s, ServiceMethodUnsubscribedHandler h) override { chk(s); sym_assert(!unsub[at(q)], "registered twice"); unsub[at(q)].emplace(std::move(h)); return MethodUnsubscriptionRegistrationGuardFactory::Create(*this, q, s, scope); }
  void UnregisterOnServiceMethodSubscribedHandler(const QualityType q, SkeletonInstanceIdentifier s) override { chk(s); sub[at(q)].reset(); }
  void UnregisterOnServiceMethodUnsubscribedHandler(const QualityType q, SkeletonInstanceIdentifier s) override { chk(s); unsub[at(q)].reset(); }
  CallEnd* find(QualityType q, const ProxyMethodInstanceIdentifier& i) { for (auto& e : ends) if (e.q == q && e.id == i) return &e; return nullptr; }
  score::Result<MethodCallRegistrationGuard> RegisterMethodCallHandler(const QualityType q, const ProxyMethodInstanceIdentifier i, MethodCallHandler h, const uid_t u) override { if (g_fail > 0 && --g_fail == 0) return score::MakeUnexpected(score::mw::com::impl::ComErrc::kBindingFailure); sym_assert(find(q, i) == nullptr, "a call handler is registered while the old one still is"); ends.push_back(CallEnd{q, i, u, std::move(h)}); return MethodCallRegistrationGuardFactory::Create(*this, q, i, scope); }
  void UnregisterMethodCallHandler(const QualityType q, ProxyMethodInstanceIdentifier i) override { auto* e = find(q, i); sym_assert(e != nullptr, "no such call handler"); ends.erase(ends.begin() + (e - ends.data())); }
  static score::Result<void> bad() { return score::MakeUnexpected(score::mw::com::impl::ComErrc::kBindingFailure); }
  score::Result<void> SubscribeServiceMethod(const QualityType q, const SkeletonInstanceIdentifier& s, const ProxyInstanceIdentifier& p, const pid_t t) override { chk(s); auto* h = hub_of(t); if (h == nullptr || !h->sub[at(q)]) return bad(); auto f = from(); auto copy = *h->sub[at(q)]; enter(t); auto r = copy(p, f.uid, f.pid); back(f.proc); if (!r.has_value()) return bad(); return *r; }
  score::Result<void> UnsubscribeServiceMethod(const QualityType q, const SkeletonInstanceIdentifier& s, const ProxyInstanceIdentifier& p, const pid_t t) override { chk(s); auto* h = hub_of(t); if (h == nullptr || !h->unsub[at(q)]) return bad(); auto f = from(); auto copy = *h->unsub[at(q)]; enter(t); auto r = copy(p); back(f.proc); if (!r.has_value()) return bad(); return *r; }
  score::Result<void> CallMethod(const QualityType q, const ProxyMethodInstanceIdentifier& i, const std::size_t pos, const pid_t t) override { auto* h = hub_of(t); auto* e = h ? h->find(q, i) : nullptr; if (e == nullptr) return bad(); auto f = from(); sym_assert(e->uid == f.uid, "calls of this consumer's user are not allowed"); auto copy = e->h; enter(t); auto r = copy(pos); back(f.proc); if (!r.has_value()) return bad(); return {}; } }; }
#define MESSAGING Hub
#include "life.h"
#include "score/mw/com/impl/bindings/lola/proxy_method.h"
#include "score/mw/com/impl/bindings/lola/skeleton_method.h"
namespace {
bool g_alive = false; // the provider's process
Hub* hub_of(pid_t p) { return g_alive && p == R[0]->l.my_pid ? &R[0]->m : nullptr; } From from() { return {g_rt->l.my_pid, g_w->uid, g_w->proc}; } void enter(pid_t) { as(0); } void back(int p) { as(p); }
using Info = L::TypeErasedCallQueue::TypeErasedElementInfo; using Span = std::optional<score::cpp::span<std::byte>>; using Sz = score::memory::DataTypeSizeInfo;
constexpr int NM = 3; const L::UniqueMethodIdentifier kM[NM] = {{6, I::MethodType::kMethod}, {7, I::MethodType::kMethod}, {9, I::MethodType::kGet}};
Info info(int k) { return k == 0 ? Info{Sz{8, 4}, Sz{16, 8}, 1} : k == 1 ? Info{Sz{1, 1}, std::nullopt, 2} : Info{std::nullopt, Sz{4, 4}, 1}; }
struct Ran { int n = 0, m = -1; I::QualityType q{}; std::uint8_t in = 0, out = 0; } ran;
struct Srv { std::unique_ptr<L::SkeletonMethod> m[NM]; } S;
struct Cl { std::unique_ptr<L::ProxyMethod> m[NM]; bool sub = false; std::string shm; fw::Res* o = nullptr; } X[2];
struct Std2 : FS::IStandardFilesystem { score::Result<bool> Exists(const FS::Path& p) const noexcept override { return g_w->object(std::string{p.CStr()}.substr(8)) != nullptr; } score::Result<FS::FileStatus> Status(const FS::Path&) const noexcept override { std::abort(); } score::Result<void> Permissions(const FS::Path&, const FS::Perms, const FS::PermOptions) const noexcept override { std::abort(); } score::Result<void> Remove(const FS::Path&) const noexcept override { std::abort(); } };
std::vector<uid_t> g_cons[2]; bool g_given[2], g_strict;
void start() { sym_assert(create(0), "the provider cannot start"); g_alive = true; as(0); for (int k = 0; k < NM; k++) S.m[k] = std::make_unique<L::SkeletonMethod>(*P[0].s, kM[k]);
  for (int k = 0; k < NM; k++) { sym_assert(!P[0].s->VerifyAllMethodHandlersRegistered(), "a method without handler goes unnoticed"); sym_assert(S.m[k]->RegisterHandler([k](I::QualityType q, Span in, Span out) { ran.n++; ran.m = k; ran.q = q; auto i = info(k); sym_assert(in.has_value() == i.in_arg_type_info.has_value() && out.has_value() == i.return_type_info.has_value(), "arguments and result of the method"); if (in) { sym_assert(in->size() == i.in_arg_type_info->Size(), "size of the arguments"); ran.in = static_cast<std::uint8_t>(in->data()[in->size() - 1]); } if (out) { sym_assert(out->size() == i.return_type_info->Size(), "size of the result"); ran.out = sym_u8("result"); out->data()[0] = static_cast<std::byte>(ran.out); } }).has_value(), "handler"); } sym_assert(P[0].s->VerifyAllMethodHandlersRegistered(), "all methods have handlers"); }
void fate(int c, bool ok) { X[c].sub = ok; }
void up() { sym_assert(offer(0), "the service cannot be offered"); for (int q = 0; q < 2; q++) { sym_assert(R[0]->m.sub[q].has_value() == (q == 0 || g_b) && R[0]->m.unsub[q].has_value() == (q == 0 || g_b), "consumers of each quality can subscribe to methods"); if (R[0]->m.sub[q]) { auto& a = R[0]->m.allowed[q]; sym_assert(a.has_value() == (g_given[q] || g_strict), "who may subscribe to methods"); if (a) sym_assert(*a == std::set<uid_t>(g_cons[q].begin(), g_cons[q].end()), "who may subscribe to methods"); } }
  for (int c = 0; c < 2; c++) if (C[c].p) { g_fail = sym_choose(2, "failing handler") * 2; bool ok = g_fail == 0; announce(c); fate(c, ok); g_fail = 0; if (!ok) sym_reach("failed"); } }
template <class T, T* V> struct Rob { friend T& counter() { return *V; } }; std::atomic<L::ProxyInstanceIdentifier::ProxyInstanceCounter>& counter(); template struct Rob<std::atomic<L::ProxyInstanceIdentifier::ProxyInstanceCounter>, &L::Proxy::current_proxy_instance_counter_>;
L::ProxyInstanceIdentifier::ProxyInstanceCounter g_cnt[2]; // per process
bool join(int c, int i_fail) { counter() = g_cnt[c]; sym_assert(connect(c, c == 1), "a consumer cannot connect"); g_cnt[c] = counter(); auto& x = X[c]; auto* old = x.o; x = Cl{}; for (int k = 0; k < NM; k++) { x.m[k] = std::make_unique<L::ProxyMethod>(*C[c].p, L::ProxyMethodInstanceIdentifier{C[c].p->GetProxyInstanceIdentifier(), kM[k]}, info(k)); } announce(c); as(2 + c);
  for (auto& m : x.m) sym_assert(!m->IsSubscribed(), "subscribed before the methods are set up");
  g_fail = i_fail; const bool ok = g_fail == 0; const int before = static_cast<int>(g_w->objs.size()); auto r = C[c].p->SetupMethods(); g_fail = 0; sym_assert(r.has_value() == ok, "methods are set up unless the provider refuses"); sym_assert(static_cast<int>(g_w->objs.size()) == before + 1, "one memory object for the calls of a consumer"); auto* o = g_w->objs.back(); x.shm = o->path; x.o = o;
  auto* pm = std::get_if<score::memory::shared::permission::UserPermissionsMap>(&o->perm); sym_assert(pm != nullptr && pm->size() == 2, "the memory of calls is for the provider's user only"); for (auto& [k, us] : *pm) sym_assert(us.size() == 1 && us[0] == g_uid[0], "the memory of calls is for the provider's user only");
  sym_assert(o->opens == 1 && o->last_rw && o->had_providers && o->providers.size() == 1 && o->providers[0] == g_uid[2 + c], "the provider opens memory of the calling user only");
  if (old && old != o) sym_assert(old->maps[0] == 0, "the provider keeps the memory of a crashed consumer"); fate(c, ok); if (!ok) { sym_reach("failed"); for (auto& m : x.m) sym_assert(!m->IsSubscribed(), "subscribed although the provider refused"); } return ok; }
void part(int c, bool crashing) { auto& x = X[c]; if (crashing) { for (auto& m : x.m) (void)m.release(); crash(2 + c); g_cnt[c] = 0; } else { const bool was = x.sub && P[0].up; leave(c); if (was) sym_assert(x.o->maps[0] == 0, "the provider keeps the memory of a consumer that left"); sym_assert(g_w->object(x.shm) == nullptr, "a consumer that left leaves its memory"); for (auto& m : x.m) m.reset(); } x.sub = false; }
void check() {
  for (int c = 0; c < 2; c++) if (auto* o = X[c].o) { if (X[c].sub) sym_assert(o->maps[0] == 1, "the provider has the memory of a subscribed consumer"); else sym_assert(o->maps[0] == 0 || (P[0].up && !C[c].p), "the provider keeps the memory of a consumer that is not subscribed"); if (C[c].p) sym_assert(o->maps[2 + c] == 1, "a consumer has its memory"); else sym_assert(o->maps[2 + c] == 0, "a consumer that left keeps its memory"); }
  auto& m = R[0]->m; if (!g_alive) return; if (!P[0].up) { sym_assert(!m.sub[0] && !m.sub[1] && !m.unsub[0] && !m.unsub[1] && m.ends.empty(), "nothing stays registered when the service is withdrawn"); return; }
  for (int c = 0; c < 2; c++) if (C[c].p) for (int k = 0; k < NM; k++) { auto* e = m.find(c ? QT::kASIL_B : QT::kASIL_QM, L::ProxyMethodInstanceIdentifier{C[c].p->GetProxyInstanceIdentifier(), kM[k]}); if (X[c].sub) sym_assert(e != nullptr, "a subscribed consumer has a call handler"); else sym_assert(e == nullptr, "a consumer that is not subscribed has a call handler"); if (e) sym_assert(e->uid == g_uid[2 + c], "another user may call"); }
  int n = 0; for (auto& e : m.ends) n++; int live = 0; for (int c = 0; c < 2; c++) live += X[c].sub; sym_assert(n <= 2 * NM && n >= live * NM, "call handlers"); }
}
extern "C" void h_calls() {
  const bool b = flip("ASIL-B"); int who = b ? 1 + sym_choose(2, "allowed") : 0; g_strict = who == 2; std::unordered_map<QT, std::vector<uid_t>> cons; if (who != 0) { g_given[0] = true; g_cons[0] = {502, 503}; cons[QT::kASIL_QM] = g_cons[0]; if (who == 1) { g_given[1] = true; g_cons[1] = {503}; cons[QT::kASIL_B] = g_cons[1]; } }
  for (int p = 0; p < 4; p++) g_uid[p] = static_cast<uid_t>(500 + p); g_methods.emplace("m", I::LolaMethodId{6}); g_methods.emplace("n", I::LolaMethodId{7}); g_methods.emplace("o", I::LolaMethodId{8}); g_fields.emplace("f", I::LolaFieldId{9}); g_imethods.emplace("m", I::LolaMethodInstanceDeployment{std::uint8_t{1}, true}); g_imethods.emplace("n", I::LolaMethodInstanceDeployment{std::uint8_t{2}, true}); g_imethods.emplace("o", I::LolaMethodInstanceDeployment{std::uint8_t{1}, false});
  I::LolaServiceInstanceDeployment::FieldInstanceMapping fi; fi.emplace("f", I::LolaFieldInstanceDeployment{I::LolaEventInstanceDeployment{std::uint16_t{2}, std::uint8_t{2}, std::uint8_t{1}, true, 0}, true, false});
  setup(new Dep{b, cons, {}, g_strict, events(), fi}, b); auto f = files(); f.standard = std::make_shared<Std2>(); FS::stub_filesystem() = f; start(); up(); const bool second = b && flip("second"); join(0, 0); if (second) join(1, 0);
  for (int i = 0; i < K; i++) {
    const int op = sym_choose(3, "op"); const int c = second && op != 1 ? sym_choose(2, "which consumer") : 0; const bool live = C[c].p != nullptr; auto& x = X[c];
    if (op == 0) { sym_assume(live); as(2 + c); const int k = sym_choose(NM, "method"); auto in = info(k); std::uint8_t v = sym_u8("argument"); const int before = ran.n; const std::size_t pos = in.queue_size - 1; bool ok = x.m[k]->IsSubscribed(); score::cpp::span<std::byte> out; 
      if (in.in_arg_type_info) { auto a = x.m[k]->GetInArgsBuffer(pos); sym_assert(a.has_value() == ok, "arguments can be placed exactly while subscribed"); if (ok) { sym_assert(a->size() == in.in_arg_type_info->Size(), "size of the arguments"); a->data()[a->size() - 1] = static_cast<std::byte>(v); } }
      if (in.return_type_info) { auto a = x.m[k]->GetReturnValueBuffer(pos); sym_assert(a.has_value() == ok, "results can be fetched exactly while subscribed"); if (ok) out = *a; }
      auto r = x.m[k]->DoCall(pos); const bool want = P[0].up && x.sub; sym_assert(r.has_value() == want, "a call succeeds exactly if the provider is there and the consumer is subscribed"); sym_assert(ran.n == before + (want ? 1 : 0), "a call runs its handler once"); if (want) { sym_assert(ran.m == k && ran.q == (c ? QT::kASIL_B : QT::kASIL_QM), "another method runs, or with another quality"); if (in.in_arg_type_info) sym_assert(ran.in == v, "an argument changes on its way"); if (in.return_type_info) sym_assert(static_cast<std::uint8_t>(out.data()[0]) == ran.out, "the result changes on its way"); sym_reach("called"); } else if (P[0].up) sym_reach("refused"); else sym_reach("handler_missing"); }
    else if (op == 1) { const int how = sym_choose(3, "restart"); if (P[0].up) { sym_assume(how != 2); if (how == 0) { withdraw(0); sym_reach("withdrawn"); for (int d = 0; d < 2; d++) if (C[d].p) { announce(d); for (auto& m : X[d].m) sym_assert(!m->IsSubscribed(), "subscribed although the service was withdrawn"); } for (auto& y : X) y.sub = false; }
        else { sym_reach("crashed"); for (auto& m : S.m) (void)m.release(); g_alive = false; crash(0); if (flip("noticed")) for (int d = 0; d < 2; d++) if (C[d].p) announce(d); for (auto& y : X) y.sub = false; } }
      else { sym_assume(how == 2); sym_reach("restarted"); for (int d = 0; d < 2; d++) if (C[d].p) announce(d); if (!P[0].s) start(); up(); } }
    else if (live) { const bool crashing = flip("consumer crashes"); part(c, crashing); if (!crashing) sym_reach("left"); }
    else { sym_assume(P[0].up); sym_reach("rejoined"); if (!join(c, sym_choose(4, "failing handler"))) part(c, false); }
    check();
  }
  sym_reach("end");
}
