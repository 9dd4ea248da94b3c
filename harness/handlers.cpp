// SOURCES: @mem @fakert score/mw/com/impl/com_error.cpp score/mw/com/impl/method_type.cpp score/mw/com/impl/configuration/quality_type.cpp score/mw/com/impl/methods/skeleton_method_binding.cpp score/mw/com/impl/bindings/lola/skeleton_method.cpp score/mw/com/impl/bindings/lola/methods/type_erased_call_queue.cpp score/mw/com/impl/bindings/lola/methods/unique_method_identifier.cpp score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.cpp score/mw/com/impl/bindings/lola/methods/method_resource_map.cpp score/mw/com/impl/bindings/lola/methods/offered_state_machine.cpp score/mw/com/impl/bindings/lola/proxy_instance_identifier.cpp score/mw/com/impl/bindings/lola/messaging/method_call_registration_guard.cpp score/mw/com/impl/bindings/lola/skeleton_instance_identifier.cpp score/mw/com/impl/bindings/lola/element_fq_id.cpp
// ENTRY: h_handlers property=C20 reach=replaced,second,failed,unknown,gone quick=100 thorough=600 defs=K=4 tdefs=K=5
// ENTRY: h_regions property=C20 reach=replaced,kept,freed quick=100 thorough=600 defs=K=4 tdefs=K=5
// ENTRY: h_ids property=C20 reach=done quick=60 thorough=60
// ENTRY: h_offered property=C20 reach=reoffered,wrong quick=30 thorough=60 defs=K=5 tdefs=K=7
// BOUND: histories of 4 (5) handler and region operations over two applications with two proxies each, all process ids; all identifiers for equality and hashing; offer histories of 5 (7)
// ASSUME: hash containers place elements by std::hash; messaging is a recorder
#include "hx.h"
#include "fake_rt.h"
#include "score/mw/com/impl/bindings/lola/skeleton_method.h"
#include "score/mw/com/impl/bindings/lola/skeleton.h"
#include "score/mw/com/impl/bindings/lola/methods/method_resource_map.h"
#include "score/mw/com/impl/bindings/lola/methods/offered_state_machine.h"
#ifndef K
#define K 3
#endif
namespace I = score::mw::com::impl; using score::cpp::span;
void L::Skeleton::RegisterMethod(const L::UniqueMethodIdentifier, L::SkeletonMethod&) {}
static const L::ProxyInstanceIdentifier kId[4] = {{1, 0}, {1, 65535}, {2, 0}, {0xFFFFFFFFu, 1}}; // two proxies of one application, two others
static bool sameApp(int a, int b) { return kId[a].application_id == kId[b].application_id; }
struct Msg : Messaging { std::optional<MethodCallHandler> h[4]; uid_t uid[4]{}; bool fail = false; I::QualityType q = I::QualityType::kASIL_B; score::safecpp::Scope<> scope; L::UniqueMethodIdentifier u{9, I::MethodType::kMethod};
  int idx(const L::ProxyMethodInstanceIdentifier& i) { sym_assert(i.unique_method_identifier == u, "another method"); for (int k = 0; k < 4; k++) if (i.proxy_instance_identifier == kId[k]) return k; sym_assert(false, "unknown proxy"); return 0; }
  score::Result<L::MethodCallRegistrationGuard> RegisterMethodCallHandler(const I::QualityType a, const L::ProxyMethodInstanceIdentifier i, MethodCallHandler c, const uid_t us) override { int k = idx(i); sym_assert(!h[k].has_value(), "a handler is registered while the proxy's old one still is"); sym_assert(a == q, "quality"); if (fail) return score::MakeUnexpected(I::ComErrc::kBindingFailure); uid[k] = us; h[k].emplace(std::move(c)); return L::MethodCallRegistrationGuardFactory::Create(*this, a, i, scope); }
  void UnregisterMethodCallHandler(const I::QualityType a, L::ProxyMethodInstanceIdentifier i) override { int k = idx(i); sym_assert(a == q, "quality"); sym_assert(h[k].has_value(), "unregistered twice"); h[k].reset(); } };
alignas(64) static unsigned char g_skel_mem[64];
extern "C" void h_handlers() {
  Rt rt; g_rt = &rt; Msg m; g_msg = &m; static std::byte in[4][8], out[4][8]; std::byte* seen_in = nullptr; std::byte* seen_out = nullptr; int runs = 0;
  { L::SkeletonMethod s{*reinterpret_cast<L::Skeleton*>(g_skel_mem), m.u}; score::safecpp::Scope<> scope; L::TypeErasedCallQueue::TypeErasedElementInfo info{score::memory::DataTypeSizeInfo{8, 8}, score::memory::DataTypeSizeInfo{8, 4}, 1};
  sym_assert(!s.IsRegistered(), "no handler yet"); sym_assert(s.RegisterHandler([&](I::QualityType q, std::optional<span<std::byte>> a, std::optional<span<std::byte>> b) { sym_assert(q == I::QualityType::kASIL_B, "the caller's quality is lost"); runs++; seen_in = a->data(); seen_out = b->data(); sym_assert((a->size() == 8) & (b->size() == 8), "size"); }).has_value() && s.IsRegistered(), "handler registered");
  bool reg[4]{}; pid_t pid[4]{}; uid_t uid[4]{};
  for (int i = 0; i < K; i++) { int k = sym_choose(4, "proxy"); L::ProxyMethodInstanceIdentifier id{kId[k], m.u};
    switch (sym_choose(4, "op")) {
      case 0: { pid_t p = sym_u32("pid"); bool known = false; for (int j = 0; j < 4; j++) known |= reg[j] & sameApp(j, k) & (pid[j] == p); sym_assume(!(reg[k] & known)); // the skeleton asks for what is already there first
        if (!known) for (int j = 0; j < 4; j++) if (sameApp(j, k)) { if (reg[j]) sym_reach("replaced"); reg[j] = false; } else {} else sym_reach("second");
        m.fail = sym_bool("fail"); uid_t u = sym_u32("uid"); auto r = s.OnProxyMethodSubscribeFinished(info, span<std::byte>{in[k], 8}, span<std::byte>{out[k], 8}, id, scope, u, p, I::QualityType::kASIL_B); sym_assert(r.has_value() == !m.fail, "result of the subscription"); if (m.fail) sym_reach("failed"); else { reg[k] = true; pid[k] = p; uid[k] = u; } } break;
      case 1: { bool ok = !sym_try_f([&] { s.OnProxyMethodUnsubscribe(id); }); sym_assert(ok == reg[k], "unsubscribing an unknown proxy"); if (!ok) { sym_reach("unknown"); return; } reg[k] = false; sym_reach("gone"); } break;
      case 2: s.OnProxyMethodUnsubscribeFinished(id); reg[k] = false; break;
      default: s.UnregisterMethodCallHandlers(); for (auto& b : reg) b = false; break;
    }
    for (int j = 0; j < 4; j++) { sym_assert(m.h[j].has_value() == reg[j], "exactly the live proxies have a call handler"); if (reg[j]) { int before = runs; sym_assert(m.uid[j] == uid[j], "the handler admits another user"); (*m.h[j])(0); sym_assert((runs == before + 1) & (seen_in == in[j]) & (seen_out == out[j]), "a call uses another proxy's storage"); } }
  } }
  for (int j = 0; j < 4; j++) sym_assert(!m.h[j].has_value(), "handlers left over");
}
extern "C" void h_regions() {
  using R = score::memory::shared::ISharedMemoryResource; L::MethodResourceMap map; std::shared_ptr<int> own[4]; std::weak_ptr<int> w[4]; bool has[4]{}; pid_t pid[4]{};
  for (int i = 0; i < K; i++) { int k = sym_choose(4, "proxy");
    switch (sym_choose(3, "op")) {
      case 0: { pid_t p = sym_u32("pid"); bool there = has[k] && pid[k] == p; sym_assert(map.Contains(kId[k], p) == there, "contains"); if (there) { sym_assert(sym_try_f([&] { map.CleanUpOldRegions(kId[k], p); }), "a region is created twice"); return; }
        bool old = false; for (int j = 0; j < 4; j++) old |= has[j] & sameApp(j, k) & (pid[j] != p); auto r = map.CleanUpOldRegions(kId[k], p); sym_assert((r == L::MethodResourceMap::CleanUpResult::OLD_REGIONS_REMOVED) == old, "result of cleaning up"); if (old) { sym_reach("replaced"); for (int j = 0; j < 4; j++) if (sameApp(j, k)) has[j] = false; } else if (has[0] | has[1] | has[2] | has[3]) sym_reach("kept");
        { auto o = std::make_shared<int>(i); w[k] = o; std::shared_ptr<R> res{o, reinterpret_cast<R*>(o.get())}; auto it = map.Insert(kId[k], p, res); sym_assert((it->first == kId[k].proxy_instance_counter) & (reinterpret_cast<int*>(it->second.get()) == o.get()), "the inserted region"); } has[k] = true; pid[k] = p; } break;
      case 1: map.Remove(kId[k]); has[k] = false; break;
      default: if (sym_bool("clear")) { map.Clear(); for (auto& h : has) h = false; } break;
    }
    for (int j = 0; j < 4; j++) { sym_assert(w[j].expired() == !has[j], "a region is kept exactly while its proxy is there"); if (!has[j]) sym_reach("freed"); }
  }
  int j = sym_choose(4, "probe"); pid_t p = sym_u32("probe_pid"); sym_assert(map.Contains(kId[j], p) == (has[j] & (pid[j] == p)), "contains exactly the live proxies of the right process");
}
extern "C" void h_ids() { // equal exactly if all parts are equal; equal ones hash alike
  auto mk = [](const char* a) { L::ProxyMethodInstanceIdentifier i{{sym_u32(a), sym_u16(a)}, {sym_u16(a), static_cast<I::MethodType>(sym_range(0, 3, a))}}; return i; }; auto a = mk("a"), b = mk("b");
  bool p = (a.proxy_instance_identifier.application_id == b.proxy_instance_identifier.application_id) & (a.proxy_instance_identifier.proxy_instance_counter == b.proxy_instance_identifier.proxy_instance_counter), u = (a.unique_method_identifier.method_or_field_id == b.unique_method_identifier.method_or_field_id) & (a.unique_method_identifier.method_type == b.unique_method_identifier.method_type);
  sym_assert((a == b) == (p & u), "method instances are mixed up"); sym_assert((a.proxy_instance_identifier == b.proxy_instance_identifier) == p, "proxies are mixed up"); sym_assert((a.unique_method_identifier == b.unique_method_identifier) == u, "methods are mixed up"); sym_assert((a.unique_method_identifier != b.unique_method_identifier) == !u, "methods are mixed up");
  if (p & u) sym_assert(std::hash<L::ProxyMethodInstanceIdentifier>{}(a) == std::hash<L::ProxyMethodInstanceIdentifier>{}(b), "equal identifiers hash differently");
  sym_reach("done");
}
extern "C" void h_offered() {
  L::OfferedStateMachine s; using S = L::OfferedStateMachine::State; S e = S::OFFERED; 
  for (int i = 0; i < K; i++) { sym_assert(s.GetCurrentState() == e, "offer state"); bool offer = sym_bool("offer"); bool ok = !sym_try_f([&] { if (offer) s.Offer(); else s.StopOffer(); }); bool legal = offer ? e != S::RE_OFFERED : e != S::STOP_OFFERED; sym_assert(ok == legal, "an impossible offer or stop is accepted, or a possible one refused"); if (!ok) { sym_reach("wrong"); return; } e = offer ? (e == S::STOP_OFFERED ? S::RE_OFFERED : S::OFFERED) : S::STOP_OFFERED; if (e == S::RE_OFFERED) sym_reach("reoffered"); }
  sym_assert(s.GetCurrentState() == e, "offer state");
}
