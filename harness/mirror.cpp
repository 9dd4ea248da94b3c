// SOURCES: @mem @fakert score/mw/com/gateway/gateway_application/gateway_application.cpp score/mw/com/gateway/gateway_application/gateway_error.cpp score/mw/com/impl/generic_proxy.cpp score/mw/com/impl/generic_proxy_event.cpp score/mw/com/impl/proxy_base.cpp score/mw/com/impl/proxy_event_base.cpp score/mw/com/impl/generic_skeleton.cpp score/mw/com/impl/generic_skeleton_event.cpp score/mw/com/impl/data_type_meta_info.cpp score/mw/com/impl/sample_reference_tracker.cpp score/mw/com/impl/proxy_binding.cpp score/mw/com/impl/proxy_event_binding_base.cpp score/mw/com/impl/com_error.cpp score/mw/com/impl/skeleton_base.cpp score/mw/com/impl/skeleton_binding.cpp score/mw/com/impl/skeleton_event_base.cpp score/mw/com/impl/skeleton_event_binding.cpp score/mw/com/impl/skeleton_field_base.cpp score/mw/com/impl/flag_owner.cpp score/mw/com/impl/sample_allocatee_tracker.cpp score/mw/com/impl/sample_allocatee_guard.cpp score/mw/com/impl/i_service_discovery.cpp score/mw/com/impl/instance_specifier.cpp score/mw/com/impl/tracing/skeleton_tracing.cpp score/mw/com/impl/tracing/skeleton_event_tracing_data.cpp score/mw/com/impl/configuration/service_type_deployment.cpp score/mw/com/impl/configuration/service_identifier_type.cpp score/mw/com/impl/configuration/service_version_type.cpp score/mw/com/impl/method_type.cpp score/mw/com/impl/instance_identifier.cpp score/mw/com/impl/handle_type.cpp score/mw/com/impl/enriched_instance_identifier.cpp score/mw/com/impl/find_service_handle.cpp score/mw/com/impl/service_element_type.cpp score/mw/com/impl/configuration/configuration.cpp score/mw/com/impl/configuration/configuration_common_resources.cpp score/mw/com/impl/configuration/configuration_error.cpp score/mw/com/impl/configuration/global_configuration.cpp score/mw/com/impl/configuration/tracing_configuration.cpp score/mw/com/impl/configuration/lola_event_id.cpp score/mw/com/impl/configuration/lola_event_instance_deployment.cpp score/mw/com/impl/configuration/lola_field_id.cpp score/mw/com/impl/configuration/lola_field_instance_deployment.cpp score/mw/com/impl/configuration/lola_method_id.cpp score/mw/com/impl/configuration/lola_method_instance_deployment.cpp score/mw/com/impl/configuration/lola_service_element_id.cpp score/mw/com/impl/configuration/lola_service_id.cpp score/mw/com/impl/configuration/lola_service_instance_deployment.cpp score/mw/com/impl/configuration/lola_service_instance_id.cpp score/mw/com/impl/configuration/lola_service_type_deployment.cpp score/mw/com/impl/configuration/quality_type.cpp score/mw/com/impl/configuration/service_instance_deployment.cpp score/mw/com/impl/configuration/service_instance_id.cpp score/mw/com/impl/configuration/shm_size_calc_mode.cpp score/mw/com/impl/tracing/skeleton_event_tracing.cpp score/mw/com/impl/tracing/proxy_event_tracing.cpp
// ENTRY: h_mirror property=C39 reach=offered,refused,fault,withdrawn,again,waiting,left,notified,silent,end quick=200 thorough=900 defs=K=5,NF=1 tdefs=K=7,NF=2
// ENTRY: h_mirror_sizes property=C39 reach=offered,refused,end quick=60 thorough=200 defs=K=2,NF=0,SIZES=1 tdefs=K=3,NF=0,SIZES=1
// BOUND: histories of 5 (7) steps of a provider behind one gateway and consumers behind the other, one service with two events of any size up to 4096, at most 1 (2) failures of a message, binding, offer or subscription
// ASSUME: a message between the gateways is handled before the next one is sent (C37, C38); bindings and service discovery are stand-ins; tracing is off
#include "sym.h"
#include "fake_rt.h"
#include "score/mw/com/gateway/gateway_application/gateway_application.h"
#include "score/mw/com/gateway/gateway_application/gateway_error.h"
#include "score/mw/com/gateway/transport_layer/transport_factory.h"
#include "score/mw/com/impl/plumbing/proxy_binding_factory.h"
#include "score/mw/com/impl/plumbing/proxy_event_binding_factory.h"
#include "score/mw/com/impl/plumbing/skeleton_binding_factory.h"
#include "score/mw/com/impl/plumbing/generic_skeleton_event_binding_factory.h"
#include "score/mw/com/impl/i_service_discovery.h"
#ifndef K
#define K 5
#endif
#ifndef NF
#define NF 1
#endif
namespace com = score::mw::com; namespace I = com::impl; namespace G = com::gateway; template <class T> using R = score::Result<T>;
namespace {
auto err() { return score::MakeUnexpected(I::ComErrc::kBindingFailure); }
bool flip(const char* n) { return sym_choose(2, n) != 0; }
int g_faults; bool g_may; // a fault at this step
bool fault() { if (!g_may || g_faults == 0 || !flip("fault")) return false; g_faults--; sym_reach("fault"); return true; }
const char* const kEv[2] = {"e", "f"}; std::uint64_t g_size[2], g_align[2]; int ev(std::string_view n) { sym_assert(n == "e" || n == "f", "an element the service does not have"); return n == "f"; }
struct Dep { I::ServiceTypeDeployment t; I::ServiceInstanceDeployment d; I::InstanceIdentifier id; static I::LolaServiceTypeDeployment ty() { I::LolaServiceTypeDeployment::EventIdMapping m; m.emplace("e", I::LolaEventId{5}); m.emplace("f", I::LolaEventId{6}); return I::LolaServiceTypeDeployment{7, m, {}, {}}; }
  Dep() : t{ty()}, d{I::make_ServiceIdentifierType("s", 1, 0), I::LolaServiceInstanceDeployment{I::LolaServiceInstanceId{1}}, I::QualityType::kASIL_QM, I::InstanceSpecifier::Create(std::string{"s"}).value()}, id{I::make_InstanceIdentifier(d, t)} {} };
Dep* g_dep; bool g_up; // the provider
struct PE final : I::GenericProxyEventBinding { int e; std::optional<std::size_t> n; std::weak_ptr<I::ScopedEventReceiveHandler> h; static PE* at[2]; explicit PE(int i) : e{i} { sym_assert(at[e] == nullptr, "two consumers of one event"); at[e] = this; } ~PE() override { at[e] = nullptr; }
  R<void> Subscribe(const std::size_t k) noexcept override { sym_assert(!n, "subscribed twice"); if (fault()) return err(); n = k; return {}; } void Unsubscribe() noexcept override { sym_assert(n.has_value(), "not subscribed"); n.reset(); h.reset(); }
  I::SubscriptionState GetSubscriptionState() const noexcept override { return !n ? I::SubscriptionState::kNotSubscribed : g_up ? I::SubscriptionState::kSubscribed : I::SubscriptionState::kSubscriptionPending; }
  R<void> SetReceiveHandler(std::weak_ptr<I::ScopedEventReceiveHandler> w) noexcept override { if (fault()) return err(); h = std::move(w); return {}; } R<void> UnsetReceiveHandler() noexcept override { h.reset(); return {}; }
  R<void> SetSubscriptionStateChangeHandler(I::SubscriptionStateChangeHandler) noexcept override { std::abort(); } R<void> UnsetSubscriptionStateChangeHandler() noexcept override { std::abort(); } R<std::size_t> GetNumNewSamplesAvailable() const override { return 0U; }
  std::optional<std::uint16_t> GetMaxSampleCount() const noexcept override { if (!n) return {}; return static_cast<std::uint16_t>(*n); } I::BindingType GetBindingType() const noexcept override { return I::BindingType::kLoLa; } void NotifyServiceInstanceChangedAvailability(bool, pid_t) noexcept override {}
  R<std::size_t> GetNewSamples(Callback&&, I::TrackerGuardFactory&) override { return 0U; } std::size_t GetSampleSize() const noexcept override { return g_size[e]; } bool HasSerializedFormat() const noexcept override { return false; } };
PE* PE::at[2];
bool waits(int e) { return PE::at[e] != nullptr && PE::at[e]->n && !PE::at[e]->h.expired(); }
struct PB final : I::ProxyBinding { int de = 0; bool IsEventProvided(const std::string_view) const override { return true; } R<void> SetupMethods(std::size_t) override { std::abort(); } void PrepareDeinitialize() override { sym_assert(de++ == 0, "deinitialised twice"); } void FinalizeDeinitialize() override { sym_assert(de++ == 1, "deinitialised twice"); } ~PB() override { sym_assert(de == 2, "a consumer ends without being deinitialised"); } };
struct SE final : I::GenericSkeletonEventBinding { int e; bool up = false; std::optional<I::ReceiveHandlerRegistrationChangedCallback> cb; static SE* at[2]; explicit SE(int i) : e{i} { sym_assert(at[e] == nullptr, "two providers of one event"); at[e] = this; } ~SE() override { sym_assert(!up, "an event ends while it is offered"); at[e] = nullptr; }
  static bool want[2]; static int told[2]; // consumers with a handler; notifications
  R<void> PrepareOffer() noexcept override { sym_assert(!up, "an event is offered twice"); if (fault()) return err(); up = true; if (want[e] && cb) (*cb)(true); return {}; } void PrepareStopOffer() noexcept override { sym_assert(up, "not offered"); up = false; }
  std::size_t GetMaxSize() const noexcept override { return g_size[e]; } std::size_t GetAlignment() const noexcept override { return g_align[e]; } I::BindingType GetBindingType() const noexcept override { return I::BindingType::kLoLa; } void SetSkeletonEventTracingData(I::tracing::SkeletonEventTracingData) noexcept override {}
  R<void> Send(I::SampleAllocateePtr<void>) noexcept override { std::abort(); } R<I::SampleAllocateePtr<void>> Allocate(I::SampleAllocateeGuard) noexcept override { std::abort(); } R<void> Notify() noexcept override { told[e]++; return {}; } std::pair<size_t, size_t> GetSizeInfo() const noexcept override { return {g_size[e], g_align[e]}; }
  R<void> SetReceiveHandlerRegistrationChangedHandler(I::ReceiveHandlerRegistrationChangedCallback c) noexcept override { sym_assert(!up, "set while offered"); cb.emplace(std::move(c)); return {}; } R<void> UnsetReceiveHandlerRegistrationChangedHandler() noexcept override { cb.reset(); return {}; } };
SE* SE::at[2]; bool SE::want[2]; int SE::told[2];
bool g_prepared, g_visible; int g_skels;
struct SB final : I::SkeletonBinding { SB() { sym_assert(g_skels++ == 0, "a second substitute for one service"); } ~SB() override { sym_assert(!g_prepared, "a provider ends while it is offered"); g_skels--; } R<void> PrepareOffer(SkeletonEventBindings& e, SkeletonFieldBindings&, std::optional<RegisterShmObjectTraceCallback>) override { sym_assert(e.size() == 2, "every event of the service has a substitute"); if (g_prepared || fault()) return err(); g_prepared = true; return {}; } void PrepareStopOffer(std::optional<UnregisterShmObjectTraceCallback>) override { sym_assert(g_prepared && !g_visible, "stopped while consumers can still find it"); g_prepared = false; } I::BindingType GetBindingType() const noexcept override { return I::BindingType::kLoLa; } bool VerifyAllMethodHandlersRegistered() const override { return true; } };
struct Fac final : I::IProxyBindingFactory, I::IGenericProxyEventBindingFactory, I::ISkeletonBindingFactory, I::IGenericSkeletonEventBindingFactory {
  R<std::unique_ptr<I::ProxyBinding>> Create(const I::HandleType&) noexcept override { if (fault()) return err(); return std::unique_ptr<I::ProxyBinding>{new PB}; }
  R<std::unique_ptr<I::GenericProxyEventBinding>> Create(I::HandleType, I::ProxyBinding&, const std::string_view n, const I::ServiceElementType t) override { sym_assert(t == I::ServiceElementType::EVENT, "kind of element"); return std::unique_ptr<I::GenericProxyEventBinding>{new PE{ev(n)}}; }
  std::unique_ptr<I::SkeletonBinding> Create(const I::InstanceIdentifier&) noexcept override { if (fault()) return nullptr; return std::make_unique<SB>(); }
  R<std::unique_ptr<I::GenericSkeletonEventBinding>> Create(I::SkeletonBase&, std::string_view n, const score::memory::DataTypeSizeInfo& i) noexcept override { const int e = ev(n); sym_assert(i.Size() == g_size[e], "the samples of the substitute have another size"); sym_assert(i.Alignment() >= g_align[e] && i.Alignment() <= alignof(std::max_align_t), "the samples of the substitute are not aligned"); return std::unique_ptr<I::GenericSkeletonEventBinding>{new SE{e}}; } };
Fac* g_fac;
struct SD final : I::IServiceDiscovery { std::optional<I::FindServiceHandler<I::HandleType>> found;
  R<void> OfferService(I::InstanceIdentifier) override { sym_assert(g_prepared, "found before it is prepared"); if (fault()) return err(); g_visible = true; return {}; } R<void> StopOfferService(I::InstanceIdentifier) override { sym_assert(g_visible, "not offered"); g_visible = false; return {}; } R<void> StopOfferService(I::InstanceIdentifier, QualityTypeSelector) override { std::abort(); }
  R<I::FindServiceHandle> StartFindService(I::FindServiceHandler<I::HandleType> h, const I::InstanceSpecifier s) override { sym_assert(s.ToString() == "s" && !found, "a search for every forwarded service"); found.emplace(std::move(h)); return I::make_FindServiceHandle(1); } R<I::FindServiceHandle> StartFindService(I::FindServiceHandler<I::HandleType>, I::InstanceIdentifier) override { std::abort(); } R<I::FindServiceHandle> StartFindService(I::FindServiceHandler<I::HandleType>, const I::EnrichedInstanceIdentifier) override { std::abort(); }
  R<void> StopFindService(const I::FindServiceHandle) override { return {}; } R<I::ServiceHandleContainer<I::HandleType>> FindService(I::InstanceIdentifier) override { std::abort(); } R<I::ServiceHandleContainer<I::HandleType>> FindService(I::InstanceSpecifier) override { std::abort(); } };
struct Rt2 : Rt { SD sd; I::IServiceDiscovery& GetServiceDiscovery() & noexcept override { return sd; } std::vector<I::InstanceIdentifier> resolve(const I::InstanceSpecifier& s) const override { sym_assert(s.ToString() == "s", "another service"); return {g_dep->id}; } };
G::GatewayApplication* g_gw[2]; int g_regs, g_unregs; bool g_down[2], g_back; // the peer's result comes back, or only that the message arrived
struct Tr final : G::Transport { int side; explicit Tr(int s) : side{s} {} bool IsMemorySharingSupported() const override { return false; } R<void> Setup() override { return {}; } void Shutdown() override { sym_assert(!g_down[side], "shut down twice"); g_down[side] = true; }
  template <class F> R<void> go(F f) { sym_assert(!g_down[side], "a message is sent after the shutdown"); auto* p = g_gw[1 - side]; if (p == nullptr || fault()) return err(); R<void> r = f(*p); if (fault()) return err(); if (!g_back) return {}; return r; }
  R<void> ProvideService(com::InstanceSpecifier s, std::vector<com::EventInfo> v) override { sym_assert(side == 0 && s.ToString() == "s" && v.size() == 2, "all events of the service are announced"); return go([&](auto& p) { return p.ProvideService(s, v); }); } R<void> OfferService(com::InstanceSpecifier s) override { return go([&](auto& p) { return p.OfferService(s); }); }
  R<void> StopOfferService(com::InstanceSpecifier s) override { return go([&](auto& p) { p.StopOfferService(s); return R<void>{}; }); } R<void> NotifyUpdate(com::InstanceSpecifier s, I::ServiceElementType t, std::string n) override { return go([&](auto& p) { return p.NotifyUpdate(s, t, n); }); }
  R<void> RegisterUpdateNotification(com::InstanceSpecifier s, I::ServiceElementType t, std::string n) override { sym_assert(side == 1, "direction"); return go([&](auto& p) { g_regs++; return p.RegisterUpdateNotification(s, t, n); }); } R<void> UnregisterUpdateNotification(com::InstanceSpecifier s, I::ServiceElementType t, std::string n) override { sym_assert(side == 1, "direction"); return go([&](auto& p) { g_unregs++; return p.UnregisterUpdateNotification(s, t, n); }); } };
}
I::IProxyBindingFactory& I::ProxyBindingFactory::instance() noexcept { return *g_fac; } I::IGenericProxyEventBindingFactory& I::GenericProxyEventBindingFactory::instance() noexcept { return *g_fac; } I::ISkeletonBindingFactory& I::SkeletonBindingFactory::instance() noexcept { return *g_fac; }
std::unique_ptr<G::Transport> G::TransportFactory::Create(GatewayCore&, const std::string&, const std::string&) { std::abort(); }
namespace { void run() {
  g_dep = new Dep; g_fac = new Fac; I::GenericSkeletonEventBindingFactory::mock_ = g_fac; auto* rt = new Rt2; g_rt = rt;
#ifdef SIZES
  for (int e = 0; e < 2; e++) { g_align[e] = 1UL << sym_range(0, 4, "alignment"); g_size[e] = sym_range(1, 4096, "size"); sym_assume((g_size[e] & (g_align[e] - 1)) == 0); }
#else
  g_align[0] = 8; g_size[0] = 24; g_align[1] = 1; g_size[1] = 5;
#endif
 
  static const char* const kAccept[] = {"t", "s", "sx", ""}; const int acc = sym_choose(4, "accepted"); const bool listed = acc == 1; g_back = flip("result returned"); g_faults = NF;
  for (int s = 0; s < 2; s++) { std::vector<std::string> fw, rc; if (s == 0) fw.push_back("s"); if (s == 1) { rc.push_back(kAccept[acc]); rc.push_back("r"); }; g_gw[s] = new G::GatewayApplication{G::GatewayConfiguration{fw, rc, "x", "y"}, std::make_unique<Tr>(s)}; sym_assert(g_gw[s]->Setup().has_value(), "set up"); }
  sym_assert(g_gw[0]->Start().has_value() && g_gw[1]->Start().has_value(), "start"); sym_assert(rt->sd.found.has_value(), "the forwarded service is searched for");
  bool sync = true, sure[2] = {true, true}, lost[2] = {}; /* lost: the end of a wait may not have reached the provider's side */ auto find = [&] { I::ServiceHandleContainer<I::HandleType> v; if (g_up) v.push_back(I::make_HandleType(g_dep->id)); (*rt->sd.found)(std::move(v), I::make_FindServiceHandle(1)); };
  for (int i = 0; i < K; i++) {
    const int op = sym_choose(4, "op"), left = g_faults; g_may = true;
    if (op == 0) { g_up = !g_up; find(); const bool ok = left == g_faults; if (g_up) { sync = ok; if (ok) { sym_assert(g_visible == listed, listed ? "a forwarded service is not offered to the other domain" : "a service is offered that the other domain did not ask for"); sym_reach(listed ? "offered" : "refused"); } for (auto& s : sure) s = ok; } else { if (ok) { sym_assert(!g_visible, "a service that is gone is still offered to the other domain"); sym_reach("withdrawn"); } sync = ok; for (auto& s : sure) s = s && ok; } }
    else if (op == 1) { sym_assume(g_up); find(); const bool ok = left == g_faults; sync = ok; for (auto& s : sure) s = ok; if (ok) { sym_assert(g_visible == listed, "a forwarded service is not offered to the other domain"); sym_reach("again"); } }
    else if (op == 2) { const int e = sym_choose(2, "event"); const bool now = !SE::want[e]; sym_assume(!now || g_visible); const int n = g_regs, u = g_unregs; SE::want[e] = now; if (g_visible) { sym_assert(SE::at[e] && SE::at[e]->cb, "the gateway does not see that consumers wait for an event"); (*SE::at[e]->cb)(now); if (left != g_faults) { (now ? sure : lost)[e] = !now; } else if (now) sym_assert(g_regs <= n + 1, "registered twice"); else { sym_assert(g_unregs <= u + 1, "unregistered twice"); if (sync && g_up) lost[e] = false; } sym_reach(now ? "waiting" : "left"); } else { sure[e] = false; lost[e] = true; } }
    else { sym_assume(g_up); const int e = sym_choose(2, "event"); const int a = SE::told[0], b = SE::told[1]; const bool w = waits(e); g_may = false; if (w) { auto h = PE::at[e]->h.lock(); (*h)(); } const int d = SE::told[e] - (e ? b : a); sym_assert(SE::told[1 - e] == (e ? a : b), "another event is notified"); if (sync && sure[e]) { if (!lost[e] || SE::want[e]) sym_assert(d == (SE::want[e] && g_visible ? 1 : 0), SE::want[e] ? "consumers are not notified of a sample" : "a sample nobody waits for is notified"); sym_reach(d ? "notified" : "silent"); } else sym_assert(d <= 1, "notified more than once"); }
    if (sync) { for (int e = 0; e < 2; e++) if (sure[e] && g_up && (!lost[e] || (SE::want[e] && g_visible))) sym_assert(waits(e) == (SE::want[e] && g_visible), "the gateway waits for an event exactly while a consumer does"); }
    if (!listed) sym_assert(!g_visible && g_skels == 0, "a service is offered that the other domain did not ask for");
  }
  g_may = false; const int first = sym_choose(2, "which ends first"); for (int k = 0; k < 2; k++) { const int s = k ? 1 - first : first; auto* g = g_gw[s]; g_gw[s] = nullptr; delete g; sym_assert(g_down[s], "the transport is shut down"); if (s == 1) sym_assert(!g_visible && !g_prepared && g_skels == 0, "a substitute outlives its gateway"); else { g_up = !g_up; find(); sym_assert(!PE::at[0] && !PE::at[1], "a consumer outlives its gateway"); } }
  sym_reach("end");
} }
extern "C" void h_mirror() { run(); }
extern "C" void h_mirror_sizes() { run(); }
