// Providers and consumers of one service instance, each in a process of its own, over the world of fake_world.h
#pragma once
#include "fake_world.h"
#include "fake_rt.h"
#include "score/mw/com/impl/bindings/lola/skeleton.h"
#include "score/mw/com/impl/bindings/lola/proxy.h"
#include "score/mw/com/impl/bindings/lola/partial_restart_path_builder.h"
#include "score/mw/com/impl/bindings/lola/shm_path_builder.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/i_service_discovery.h"
#include "score/mw/com/impl/skeleton_event_binding.h"
#include "score/mw/com/impl/bindings/lola/generic_skeleton_event.h"
#include "score/mw/com/impl/bindings/lola/skeleton_event.h"
#include "score/mw/com/impl/plumbing/skeleton_service_element_binding_factory_impl.h"
#include "score/filesystem/filesystem.h"
#ifndef K
#define K 6
#endif
#ifndef NE
#define NE 1
#endif
namespace I = score::mw::com::impl; namespace FS = score::filesystem; using QT = I::QualityType; using fw::g_w;
namespace {
bool flip(const char* n) { return sym_choose(2, n) != 0; }
struct SD final : I::IServiceDiscovery { int searches = 0; I::FindServiceHandler<I::HandleType> cb;
  score::Result<void> OfferService(I::InstanceIdentifier) override { std::abort(); } score::Result<void> StopOfferService(I::InstanceIdentifier) override { std::abort(); } score::Result<void> StopOfferService(I::InstanceIdentifier, QualityTypeSelector) override { std::abort(); }
  score::Result<I::FindServiceHandle> StartFindService(I::FindServiceHandler<I::HandleType>, const I::InstanceSpecifier) override { std::abort(); } score::Result<I::FindServiceHandle> StartFindService(I::FindServiceHandler<I::HandleType>, I::InstanceIdentifier) override { std::abort(); }
  score::Result<I::FindServiceHandle> StartFindService(I::FindServiceHandler<I::HandleType> h, const I::EnrichedInstanceIdentifier) override { searches++; cb = std::move(h); return I::make_FindServiceHandle(5); }
  score::Result<void> StopFindService(const I::FindServiceHandle) override { searches--; return {}; } score::Result<I::ServiceHandleContainer<I::HandleType>> FindService(I::InstanceIdentifier) override { std::abort(); } score::Result<I::ServiceHandleContainer<I::HandleType>> FindService(I::InstanceSpecifier) override { std::abort(); } };
#ifndef MESSAGING
#define MESSAGING Messaging
#endif
struct Rt2 : Rt { SD sd; MESSAGING m; I::IServiceDiscovery& GetServiceDiscovery() & noexcept override { return sd; } };
struct Std : FS::IStandardFilesystem { };
struct Utl : FS::IFileUtils { score::Result<void> CreateDirectories(const FS::Path&, const FS::Perms) const noexcept override { return {}; } score::Result<void> CreateDirectory(const FS::Path&, const FS::Perms) const noexcept override { return {}; } };
FS::Filesystem files() { FS::Filesystem f; f.utils = std::make_shared<Utl>(); return f; }
I::LolaServiceTypeDeployment::FieldIdMapping g_fields; I::LolaServiceTypeDeployment::MethodIdMapping g_methods; I::LolaServiceInstanceDeployment::MethodInstanceMapping g_imethods; // further elements of the service
I::LolaServiceTypeDeployment type() { I::LolaServiceTypeDeployment::EventIdMapping m; m.emplace("e", I::LolaEventId{5}); return I::LolaServiceTypeDeployment{7, m, g_fields, g_methods}; }
I::LolaServiceInstanceDeployment::EventInstanceMapping events() { I::LolaServiceInstanceDeployment::EventInstanceMapping m; m.emplace("e", I::LolaEventInstanceDeployment{std::uint16_t{2}, std::uint8_t{2}, std::uint8_t{1}, true, 0}); return m; }
struct Dep { I::ServiceTypeDeployment t; std::vector<I::ServiceInstanceDeployment> d; std::vector<I::InstanceIdentifier> id; // provider, QM consumer, B consumer
  Dep(bool b, std::unordered_map<QT, std::vector<uid_t>> cons = {}, std::unordered_map<QT, std::vector<uid_t>> prov = {}, bool strict = false, I::LolaServiceInstanceDeployment::EventInstanceMapping ev = events(), I::LolaServiceInstanceDeployment::FieldInstanceMapping fi = {}) : t{type()} { d.reserve(3); auto sp = I::InstanceSpecifier::Create(std::string{"a"}).value(); const QT q[3] = {b ? QT::kASIL_B : QT::kASIL_QM, QT::kASIL_QM, QT::kASIL_B};
    for (auto x : q) d.emplace_back(I::make_ServiceIdentifierType("s", 1, 0), I::LolaServiceInstanceDeployment{I::LolaServiceInstanceId{1}, ev, fi, g_imethods, strict, cons, prov}, x, sp); for (auto& x : d) id.push_back(I::make_InstanceIdentifier(x, t)); } };
const L::ElementFqId kE{7, 5, 1, I::ServiceElementType::EVENT};
struct EB final : I::SkeletonEventBindingBase { L::Skeleton* s = nullptr; L::EventDataStorage<std::uint32_t>* data = nullptr; L::EventControl *qm = nullptr, *b = nullptr;
  score::Result<void> PrepareOffer() noexcept override { auto r = s->Register<std::uint32_t>(kE, L::SkeletonEventProperties{2, 0, 0, false, 2, true}); data = &r.event_data_storage; qm = &r.event_control_qm; b = r.event_control_asil_b; return {}; }
  void PrepareStopOffer() noexcept override { data = nullptr; qm = b = nullptr; }
  std::size_t GetMaxSize() const noexcept override { return 4; } std::size_t GetAlignment() const noexcept override { return 4; } I::BindingType GetBindingType() const noexcept override { return I::BindingType::kLoLa; } void SetSkeletonEventTracingData(I::tracing::SkeletonEventTracingData) noexcept override {} };
const std::string kDir = "/tmp/mw_com_lola/partial_restart/";
Dep* D; Rt2* R[4]; bool g_b; uid_t g_uid[4];
void as(int p) { g_w->proc = p; g_w->uid = g_uid[p]; g_rt = R[p]; g_msg = &R[p]->m; } // act as process p
struct Provider { std::unique_ptr<L::Skeleton> s; EB* e = nullptr; bool up = false, stopped = false; } P[2];
struct Consumer { int told = -1; std::unique_ptr<L::Proxy> p; fw::Res *ctl = nullptr, *data = nullptr; bool b = false; } C[2];
void setup(Dep* d, bool b) { fw::install(new fw::World); D = d; g_b = b; for (int i = 0; i < 4; i++) { R[i] = new Rt2; R[i]->l.my_pid = 100 + i; R[i]->l.app = static_cast<std::uint32_t>(30 + i); } FS::stub_filesystem() = files(); }
std::string usage() { return L::PartialRestartPathBuilder{7}.GetServiceInstanceUsageMarkerFilePath(1); }
std::string path(int k) { L::ShmPathBuilder b{7}; return k == 0 ? b.GetControlChannelShmName(1, QT::kASIL_QM) : k == 1 ? b.GetControlChannelShmName(1, QT::kASIL_B) : b.GetDataChannelShmName(1); }
bool create(int p) { as(p); P[p] = Provider{}; P[p].s = L::Skeleton::Create(D->id[0], files(), std::make_unique<L::ShmPathBuilder>(7), std::make_unique<L::PartialRestartPathBuilder>(7)); return P[p].s != nullptr; }
bool offer(int p) { as(p); auto& x = P[p]; auto* e = new EB; e->s = x.s.get(); x.e = e; I::SkeletonBinding::SkeletonEventBindings ev; I::SkeletonBinding::SkeletonFieldBindings fi; ev.emplace("e", *e); if (!x.s->PrepareOffer(ev, fi, std::nullopt).has_value()) return false; sym_assert(e->PrepareOffer().has_value(), "the event cannot be prepared"); x.up = true; return true; }
void withdraw(int p) { as(p); P[p].e->PrepareStopOffer(); P[p].s->PrepareStopOffer(std::nullopt); P[p].up = false; P[p].stopped = true; }
bool connect(int c, bool b) { as(2 + c); C[c] = Consumer{}; C[c].b = b; C[c].p = L::Proxy::Create(I::make_HandleType(D->id[b ? 2 : 1])); if (!C[c].p) return false; C[c].ctl = g_w->object(path(b ? 1 : 0)); C[c].data = g_w->object(path(2)); return true; }
void announce(int c) { if (C[c].told == (P[0].up ? 1 : 0)) return; C[c].told = P[0].up ? 1 : 0; as(2 + c); I::ServiceHandleContainer<I::HandleType> hs; if (P[0].up) hs.push_back(I::make_HandleType(D->id[C[c].b ? 2 : 1])); R[2 + c]->sd.cb(hs, I::make_FindServiceHandle(5)); } // tell consumer c whether the service is offered
void leave(int c) { as(2 + c); C[c].p->PrepareDeinitialize(); C[c].p->FinalizeDeinitialize(); C[c] = Consumer{}; }
void crash(int p) { g_w->die(p); if (p < 2) { (void)P[p].s.release(); P[p] = Provider{}; } else { (void)C[p - 2].p.release(); C[p - 2] = Consumer{}; } const pid_t old = R[p]->l.my_pid; R[p] = new Rt2; R[p]->l.my_pid = old + 10; R[p]->l.app = static_cast<std::uint32_t>(30 + p); }
}
