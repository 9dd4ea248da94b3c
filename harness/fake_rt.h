// Stand-ins for the process-wide runtime and for messaging between processes (a recorder).
#pragma once
#include "sym.h"
#include "score/mw/com/impl/bindings/lola/i_runtime.h"
#include "score/mw/com/impl/runtime.h"
#include <cstdlib>
using namespace score::mw::com::impl; using namespace score::mw::com::impl::lola; namespace L = score::mw::com::impl::lola;
namespace {
struct Messaging : IMessagePassingService {
  bool registered = false; std::uint32_t no = 0; pid_t pid = 0; int reregistered = 0; QualityType q{}; ElementFqId id{}; ScopedEventReceiveHandler* h = nullptr;
  void NotifyEvent(const QualityType, const ElementFqId) noexcept override {}
  HandlerRegistrationNoType RegisterEventNotification(const QualityType a, const ElementFqId e, std::weak_ptr<ScopedEventReceiveHandler> w, const pid_t p) noexcept override { sym_assert(!registered, "a handler is registered while another one of this subscription still is"); registered = true; pid = p; q = a; id = e; h = w.lock().get(); return ++no; }
  void ReregisterEventNotification(const QualityType a, const ElementFqId e, const pid_t p) noexcept override { sym_assert(registered, "nothing to register again"); sym_assert(a == q && e == id, "another event is registered again"); pid = p; reregistered++; }
  void UnregisterEventNotification(const QualityType a, const ElementFqId e, const HandlerRegistrationNoType n, const pid_t p) noexcept override { sym_assert(registered && n == no && a == q && e == id, "unregistration does not match the registration"); registered = false; h = nullptr; }
  score::Result<MethodSubscriptionRegistrationGuard> RegisterOnServiceMethodSubscribedHandler(const QualityType, const SkeletonInstanceIdentifier, ServiceMethodSubscribedHandler, AllowedConsumerUids) override { std::abort(); }
  score::Result<MethodUnsubscriptionRegistrationGuard> RegisterOnServiceMethodUnsubscribedHandler(const QualityType, const SkeletonInstanceIdentifier, ServiceMethodUnsubscribedHandler) override { std::abort(); }
  score::Result<MethodCallRegistrationGuard> RegisterMethodCallHandler(const QualityType, const ProxyMethodInstanceIdentifier, MethodCallHandler, const uid_t) override { std::abort(); }
  int outdated = 0; pid_t outdated_pid = 0, outdated_target = 0;
  void NotifyOutdatedNodeId(const QualityType, const pid_t o, const pid_t t) noexcept override { outdated++; outdated_pid = o; outdated_target = t; }
  void RegisterEventNotificationExistenceChangedCallback(const QualityType, const ElementFqId, HandlerStatusChangeCallback) noexcept override {}
  void UnregisterEventNotificationExistenceChangedCallback(const QualityType, const ElementFqId) noexcept override {}
  score::Result<void> SubscribeServiceMethod(const QualityType, const SkeletonInstanceIdentifier&, const ProxyInstanceIdentifier&, const pid_t) override { std::abort(); }
  score::Result<void> UnsubscribeServiceMethod(const QualityType, const SkeletonInstanceIdentifier&, const ProxyInstanceIdentifier&, const pid_t) override { std::abort(); }
  score::Result<void> CallMethod(const QualityType, const ProxyMethodInstanceIdentifier&, const std::size_t, const pid_t) override { std::abort(); }
  void UnregisterOnServiceMethodSubscribedHandler(const QualityType, SkeletonInstanceIdentifier) override {}
  void UnregisterMethodCallHandler(const QualityType, ProxyMethodInstanceIdentifier) override {}
  void UnregisterOnServiceMethodUnsubscribedHandler(const QualityType, SkeletonInstanceIdentifier) override {}
};
Messaging* g_msg;
struct LolaRt : L::IRuntime {
  RollbackSynchronization rs;
  IMessagePassingService& GetLolaMessaging() & noexcept override { return *g_msg; }
  bool HasAsilBSupport() const noexcept override { return true; }
  ShmSizeCalculationMode mode = ShmSizeCalculationMode::kSimulation; ShmSizeCalculationMode GetShmSizeCalculationMode() const noexcept override { return mode; }
  RollbackSynchronization& GetRollbackSynchronization() & noexcept override { return rs; }
  pid_t my_pid = 42; pid_t GetPid() const noexcept override { return my_pid; }
  GlobalConfiguration::ApplicationId app = 7; GlobalConfiguration::ApplicationId GetApplicationId() const noexcept override { return app; }
  BindingType GetBindingType() const noexcept override { return BindingType::kLoLa; }
  IServiceDiscoveryClient& GetServiceDiscoveryClient() & noexcept override { std::abort(); }
  tracing::IBindingTracingRuntime* GetTracingRuntime() noexcept override { return nullptr; }
};
struct Rt : score::mw::com::impl::IRuntime {
  mutable LolaRt l;
  std::vector<InstanceIdentifier> resolve(const InstanceSpecifier&) const override { std::abort(); }
  IBindingRuntime* GetBindingRuntime(const BindingType) const noexcept override { return &l; }
  IServiceDiscovery& GetServiceDiscovery() & noexcept override { std::abort(); }
  tracing::ITracingRuntime* GetTracingRuntime() const noexcept override { return nullptr; }
  const tracing::ITracingFilterConfig* GetTracingFilterConfig() const override { return nullptr; }
};
Rt* g_rt;
}
// stand-in for the process-wide runtime
score::mw::com::impl::IRuntime& score::mw::com::impl::Runtime::getInstance() { return *g_rt; }
