// SOURCES: @mem @fakert score/mw/com/impl/com_error.cpp score/mw/com/impl/method_type.cpp score/mw/com/impl/configuration/quality_type.cpp score/mw/com/impl/skeleton_base.cpp score/mw/com/impl/skeleton_binding.cpp score/mw/com/impl/skeleton_event_base.cpp score/mw/com/impl/skeleton_event_binding.cpp score/mw/com/impl/skeleton_field_base.cpp score/mw/com/impl/tracing/skeleton_tracing.cpp score/mw/com/impl/tracing/skeleton_event_tracing.cpp score/mw/com/impl/tracing/skeleton_event_tracing_data.cpp score/mw/com/impl/tracing/common_event_tracing.cpp score/mw/com/impl/sample_allocatee_tracker.cpp score/mw/com/impl/sample_allocatee_guard.cpp score/mw/com/impl/flag_owner.cpp score/mw/com/impl/bindings/lola/element_fq_id.cpp score/mw/com/impl/i_service_discovery.cpp score/mw/com/impl/methods/skeleton_method_binding.cpp
// ENTRY: h_offer property=C21 reach=offered,fault,no_value,stopped,moved,sent,refused quick=120 thorough=900 defs=K=4 tdefs=K=6
// ENTRY: h_flag property=C21 reach=done quick=30 thorough=100 defs=K=3 tdefs=K=4
// BOUND: one service with two events and one field; histories of 4 (6) operations with a fault at any step of offering; every sample value
// ASSUME: bindings, service discovery and the instance identifier are stand-ins; tracing is off
#include "hx.h"
#include "fake_rt.h"
#include "score/mw/com/impl/skeleton_base.h"
#include "score/mw/com/impl/skeleton_event.h"
#include "score/mw/com/impl/skeleton_field.h"
#ifndef K
#define K 3
#endif
namespace I = score::mw::com::impl;
I::InstanceIdentifier::InstanceIdentifier(const I::ServiceInstanceDeployment& a, const I::ServiceTypeDeployment& b) : instance_deployment_{&a}, type_deployment_{&b} {}
alignas(64) static unsigned char g_depl[64];
static int g_fail = -1, g_step = 0; // the step of the current operation that fails
static bool fails() { return g_step++ == g_fail; }
static bool g_visible; static int g_sd_stops; static bool g_binding_up; static int g_seq;
struct EB final : I::SkeletonEventBinding<std::uint32_t> { bool up = false; int sends = 0; std::uint32_t last = 0; bool* alive; explicit EB(bool* a) : alive{a} { *alive = true; } ~EB() override { *alive = false; }
  score::Result<void> PrepareOffer() noexcept override { sym_assert(g_binding_up, "an event is prepared before its service"); sym_assert(!up, "an event is prepared twice"); if (fails()) return score::MakeUnexpected(I::ComErrc::kBindingFailure); up = true; return {}; }
  void PrepareStopOffer() noexcept override { sym_assert(up, "an event is stopped that was not prepared"); sym_assert(!g_visible, "an event is stopped while consumers can still find the service"); sym_assert(g_binding_up, "an event is stopped after its service"); up = false; }
  I::BindingType GetBindingType() const noexcept override { return I::BindingType::kLoLa; } void SetSkeletonEventTracingData(I::tracing::SkeletonEventTracingData) noexcept override {}
  score::Result<void> Send(const std::uint32_t& v, std::optional<SendTraceCallback>, I::SampleAllocateeGuard) noexcept override { sym_assert(up, "a sample is sent by an event that is not prepared"); if (fails()) return score::MakeUnexpected(I::ComErrc::kBindingFailure); sends++; last = v; return {}; }
  score::Result<void> Send(I::SampleAllocateePtr<std::uint32_t>, std::optional<SendTraceCallback>) noexcept override { return {}; } score::Result<I::SampleAllocateePtr<std::uint32_t>> Allocate(I::SampleAllocateeGuard) noexcept override { return score::MakeUnexpected(I::ComErrc::kBindingFailure); }
  score::Result<I::SamplePtr<std::uint32_t>> GetLatestSample(I::QualityType) override { return score::MakeUnexpected(I::ComErrc::kBindingFailure); } };
static bool g_methods_ok = true;
struct SB final : I::SkeletonBinding { std::size_t ev = 0, fi = 0;
  score::Result<void> PrepareOffer(SkeletonEventBindings& e, SkeletonFieldBindings& f, std::optional<RegisterShmObjectTraceCallback>) override { sym_assert(!g_binding_up, "the service is prepared twice"); sym_assert((e.size() == 2) & (f.size() == 1), "the service is prepared without all its elements"); if (fails()) return score::MakeUnexpected(I::ComErrc::kBindingFailure); g_binding_up = true; return {}; }
  void PrepareStopOffer(std::optional<UnregisterShmObjectTraceCallback>) override { sym_assert(g_binding_up, "the service is stopped without being prepared"); sym_assert(!g_visible, "the service is stopped while consumers can still find it"); g_binding_up = false; }
  I::BindingType GetBindingType() const noexcept override { return I::BindingType::kLoLa; } bool VerifyAllMethodHandlersRegistered() const override { return !fails(); } };
struct SD final : I::IServiceDiscovery {
  score::Result<void> OfferService(I::InstanceIdentifier) override { sym_assert(g_binding_up, "consumers find a service that is not prepared"); if (fails()) return score::MakeUnexpected(I::ComErrc::kServiceNotOffered); g_visible = true; return {}; }
  score::Result<void> StopOfferService(I::InstanceIdentifier) override { sym_assert(g_visible, "a service is withdrawn that was not offered"); g_visible = false; g_sd_stops++; if (fails()) return score::MakeUnexpected(I::ComErrc::kBindingFailure); return {}; } score::Result<void> StopOfferService(I::InstanceIdentifier, QualityTypeSelector) override { std::abort(); }
  score::Result<I::FindServiceHandle> StartFindService(I::FindServiceHandler<I::HandleType>, const I::InstanceSpecifier) override { std::abort(); } score::Result<I::FindServiceHandle> StartFindService(I::FindServiceHandler<I::HandleType>, I::InstanceIdentifier) override { std::abort(); } score::Result<I::FindServiceHandle> StartFindService(I::FindServiceHandler<I::HandleType>, const I::EnrichedInstanceIdentifier) override { std::abort(); }
  score::Result<void> StopFindService(const I::FindServiceHandle) override { std::abort(); } score::Result<I::ServiceHandleContainer<I::HandleType>> FindService(I::InstanceIdentifier) override { std::abort(); } score::Result<I::ServiceHandleContainer<I::HandleType>> FindService(I::InstanceSpecifier) override { std::abort(); } };
struct Rt2 : Rt { SD sd; I::IServiceDiscovery& GetServiceDiscovery() & noexcept override { return sd; } };
struct Base : I::SkeletonBase { using SkeletonBase::SkeletonBase; Base(Base&&) = default; Base& operator=(Base&&) = default; };
struct Ev : I::SkeletonEvent<std::uint32_t> { Ev(Base& b, const char* n, std::unique_ptr<EB> e) : SkeletonEvent<std::uint32_t>(b, n, std::move(e)) { I::SkeletonBaseView{b}.RegisterEvent(n, this->GetReferenceToMoveable()); } Ev(Ev&&) = default; };
using Fi = I::SkeletonField<std::uint32_t, I::WithNotifier>;
struct Svc { Base base; Ev e1, e2; Fi f; Svc(EB* a, EB* b, EB* c) : base{std::make_unique<SB>(), I::make_InstanceIdentifier(*reinterpret_cast<I::ServiceInstanceDeployment*>(g_depl), *reinterpret_cast<I::ServiceTypeDeployment*>(g_depl))}, e1{base, "e1", std::unique_ptr<EB>(a)}, e2{base, "e2", std::unique_ptr<EB>(b)}, f{base, "f", std::unique_ptr<EB>(c)} {} Svc(Svc&&) = default; };
extern "C" void h_offer() {
  Rt2 rt; g_rt = &rt; bool al[3]; EB* b[3] = {new EB{&al[0]}, new EB{&al[1]}, new EB{&al[2]}}; std::optional<Svc> s; s.emplace(b[0], b[1], b[2]); bool offered = false, have = false, first = true; std::uint32_t init = 0;
  for (int i = 0; i < K; i++) { g_step = 0; g_fail = -1; int op = sym_choose(6, "op");
    if (op == 0) { if (offered) continue; g_fail = static_cast<int>(sym_range(0, 7, "fault")) - 1; int fs = b[2]->sends; auto r = s->base.OfferService(); int steps = 6 + (first ? 1 : 0); // service, two events, field, initial value, methods, service discovery
        if (first && !have) { sym_assert(!r.has_value(), "a field without value is offered"); sym_reach("no_value"); }
        else { bool fault = g_fail >= 0 && g_fail < steps; sym_assert(r.has_value() == !fault, "result of offering"); if (fault) sym_reach("fault"); else { offered = true; sym_reach("offered"); } }
        if (offered) { if (first) sym_assert((b[2]->sends == fs + 1) & (b[2]->last == init), "the initial value is published with the offer"); first = false; } else if (first && b[2]->sends != fs) { first = false; } }
    else if (op == 1) { g_fail = static_cast<int>(sym_range(0, 1, "stop_fault")) - 1; int st = g_sd_stops; s->base.StopOfferService(); sym_assert(g_sd_stops == st + offered, "withdrawn exactly if offered"); if (offered) sym_reach("stopped"); offered = false; }
    else if (op == 2) { Svc t{std::move(*s)}; s.emplace(std::move(t)); sym_reach("moved"); }
    else if (op == 3) { std::uint32_t v = sym_u32("value"); auto r = s->f.Update(v); if (first) { sym_assert(r.has_value(), "value before the offer"); init = v; have = true; } else { sym_assert(r.has_value() == offered, "field update"); if (offered) sym_assert(b[2]->last == v, "field value"); } }
    else { std::uint32_t v = sym_u32("value"); int n = op - 4; int se = b[n]->sends; auto r = (n ? s->e2 : s->e1).Send(v); if (!offered) { sym_assert(!r.has_value() && r.error() == I::ComErrc::kNotOffered, "an event of a service that is not offered sends"); sym_assert(b[n]->sends == se, "sent"); sym_reach("refused"); } else { sym_assert(r.has_value() & (b[n]->sends == se + 1) & (b[n]->last == v), "sent value"); sym_reach("sent"); } }
    sym_assert((g_visible == offered) & (g_binding_up == offered) & (b[0]->up == offered) & (b[1]->up == offered) & (b[2]->up == offered), "offered completely or not at all");
  }
}
extern "C" void h_flag() { // a moved flag has exactly one owner
  bool m[2] = {sym_bool("f0"), sym_bool("f1")}; I::FlagOwner f[2] = {I::FlagOwner{m[0]}, I::FlagOwner{m[1]}}; sym_assert(!I::FlagOwner{}.IsSet(), "a new flag is not set");
  for (int i = 0; i < K; i++) { int a = sym_choose(2, "which"), b = sym_choose(2, "other"); switch (sym_choose(4, "op")) { case 0: f[a].Set(); m[a] = true; break; case 1: f[a].Clear(); m[a] = false; break; case 2: { f[a] = std::move(f[b]); if (a != b) { m[a] = m[b]; m[b] = false; } } break; default: { I::FlagOwner t{std::move(f[a])}; sym_assert(t.IsSet() == m[a], "moved flag"); m[a] = false; if (sym_bool("back")) { m[b] = t.IsSet(); f[b] = std::move(t); } } }
    sym_assert((f[0].IsSet() == m[0]) & (f[1].IsSet() == m[1]), "flag"); } sym_reach("done");
}
