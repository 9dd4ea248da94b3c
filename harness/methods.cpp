// SOURCES: @mem @fakert score/mw/com/impl/com_error.cpp score/mw/com/impl/method_type.cpp score/mw/com/impl/configuration/quality_type.cpp score/mw/com/impl/methods/proxy_method.cpp score/mw/com/impl/methods/proxy_method_base.cpp score/mw/com/impl/methods/proxy_method_binding.cpp score/mw/com/impl/methods/proxy_method_with_return_type.cpp score/mw/com/impl/methods/skeleton_method.cpp score/mw/com/impl/methods/skeleton_method_base.cpp score/mw/com/impl/methods/skeleton_method_binding.cpp score/mw/com/impl/methods/method_signature_element_ptr.cpp score/mw/com/impl/proxy_binding.cpp score/mw/com/impl/bindings/lola/proxy_method.cpp score/mw/com/impl/bindings/lola/skeleton_method.cpp score/mw/com/impl/bindings/lola/methods/type_erased_call_queue.cpp score/mw/com/impl/bindings/lola/methods/unique_method_identifier.cpp score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.cpp score/mw/com/impl/bindings/lola/proxy_instance_identifier.cpp score/mw/com/impl/bindings/lola/messaging/method_call_registration_guard.cpp score/mw/com/impl/bindings/lola/skeleton_instance_identifier.cpp score/mw/com/impl/bindings/lola/element_fq_id.cpp score/mw/com/impl/methods/proxy_method_without_in_args_or_return.cpp
// ENTRY: h_meth_layout property=C19 reach=roundtrip,too_small quick=60 thorough=120
// ENTRY: h_meth_queue property=C19 reach=both,outside quick=60 thorough=120
// ENTRY: h_meth_ptr property=C19 reach=done quick=60 thorough=200 defs=K=4 tdefs=K=6
// ENTRY: h_meth_call property=C19 reach=called,full,failed,unsubscribed,moved quick=100 thorough=600 defs=K=4 tdefs=K=5
// ENTRY: h_meth_kinds property=C19 reach=done quick=60 thorough=200
// BOUND: argument packs of 1 to 4 types with alignments 1 to 64, all values; queues of 1 to 3 positions; pointer histories of 4 (6) steps; call histories of 3 (5) steps
// ASSUME: one call position per method as the code fixes it; messaging hands the call to the registered handler in the same process
#include "hx.h"
#include "fake_rt.h"
#include "score/mw/com/impl/methods/proxy_method_with_in_args_and_return.h"
#include "score/mw/com/impl/methods/proxy_method_with_in_args.h"
#include "score/mw/com/impl/methods/proxy_method_with_return_type.h"
#include "score/mw/com/impl/methods/proxy_method_without_in_args_or_return.h"
#include "score/mw/com/impl/methods/skeleton_method.h"
#include "score/mw/com/impl/bindings/lola/proxy_method.h"
#include "score/mw/com/impl/bindings/lola/skeleton_method.h"
#include "score/mw/com/impl/bindings/lola/skeleton.h"
#include "score/mw/com/impl/bindings/lola/proxy.h"
#include <cstring>
#ifndef K
#define K 3
#endif
namespace I = score::mw::com::impl; using score::cpp::span;
// ---- argument layout
template <std::size_t S, std::size_t A> struct alignas(A) T { unsigned char b[S]; };
template <class A> static A val(const char* n) { A a; for (std::size_t i = 0; i < sizeof(A); i++) reinterpret_cast<unsigned char*>(&a)[i] = sym_u8(n); return a; }
template <class A> static bool same(const A& x, const A& y) { bool e = true; for (std::size_t i = 0; i < sizeof(A); i++) e &= reinterpret_cast<const unsigned char*>(&x)[i] == reinterpret_cast<const unsigned char*>(&y)[i]; return e; }
template <class... A> static void layout(bool too_small) {
  constexpr auto info = I::CreateDataTypeSizeInfoFromTypes<A...>(); constexpr std::size_t al = std::max({alignof(A)...}), sum = (sizeof(A) + ...);
  sym_assert(info.Alignment() == al, "alignment of the arguments"); sym_assert((info.Size() % al == 0) & (info.Size() >= sum), "size of the arguments");
  alignas(128) static unsigned char mem[1024]; std::size_t at = al * sym_choose(3, "place"); std::memset(mem, 0x5A, sizeof mem);
  std::size_t n = info.Size(); 
  if (too_small) { n = sym_u64("size"); sym_assume(n < info.Size()); n = sym_concretize(n); }
  span<std::byte> buf{reinterpret_cast<std::byte*>(mem + 128 + at), n}; std::tuple<A...> in{val<A>("arg")...}; auto* lo = mem + 128 + at; auto* hi = lo + n;
  bool ok = !sym_try_f([&] { std::apply([&](auto&... a) { I::SerializeArgs(buf, a...); }, in); });
  for (std::size_t i = 0; i < 128 + at; i++) sym_assert(mem[i] == 0x5A, "written before the storage"); for (auto* p = hi; p != mem + sizeof mem; p++) sym_assert(*p == 0x5A, "written behind the storage");
  if (!too_small) sym_assert(ok, "the computed size does not hold the arguments");
  if (!ok) { sym_reach("too_small"); return; }
  auto ptrs = I::DeserializeArgs<A...>(buf); std::pair<unsigned char*, unsigned char*> seen[sizeof...(A)]; int k = 0;
  std::apply([&](auto*... p) { ([&] { auto* b = reinterpret_cast<unsigned char*>(p); sym_assert((reinterpret_cast<std::uintptr_t>(b) % alignof(std::remove_pointer_t<decltype(p)>)) == 0, "argument is not aligned"); sym_assert((b >= lo) & (b + sizeof(*p) <= hi), "argument lies outside the storage");
    for (int j = 0; j < k; j++) sym_assert((seen[j].second <= b) | (b + sizeof(*p) <= seen[j].first), "arguments overlap"); seen[k++] = {b, b + sizeof(*p)}; }(), ...); }, ptrs);
  sym_assert(std::apply([&](auto&... a) { return std::apply([&](auto*... p) { return (same(a, *p) & ...); }, ptrs); }, in), "an argument changes on its way"); sym_reach("roundtrip");
}
extern "C" void h_meth_layout() {
  bool s = sym_bool("too_small");
  switch (sym_choose(6, "pack")) {
    case 0: layout<std::uint8_t, std::uint64_t>(s); break; case 1: layout<std::uint64_t, std::uint8_t, std::uint16_t>(s); break; case 2: layout<T<3, 1>, T<32, 32>, std::uint8_t>(s); break;
    case 3: layout<std::uint8_t, T<16, 16>, std::uint8_t, std::uint32_t>(s); break; case 4: layout<T<5, 1>>(s); break; default: layout<std::uint16_t, T<64, 64>>(s); }
}
// ---- queue storage
struct Res final : hx::HeapResource { int live = 0; unsigned char* at[2]{}; std::size_t n[2]{}, al[2]{}; int k = 0; alignas(64) unsigned char mem[512]; std::size_t top = 1;
  void* do_allocate(std::size_t c, std::size_t a) override { sym_assert(k < 2, "more regions than needed"); top = (top + a - 1) / a * a; auto* p = mem + top; top += c + 1; at[k] = p; n[k] = c; al[k] = a; k++; live++; return p; }
  void do_deallocate(void*, std::size_t, std::size_t) override { live--; } };
extern "C" void h_meth_queue() {
  using Q = L::TypeErasedCallQueue; static Res r; Q::TypeErasedElementInfo e{{}, {}, sym_range(1, 3, "queue")}; e.queue_size = sym_concretize(e.queue_size); bool hi = sym_bool("in"), hr = sym_bool("ret");
  std::size_t A[4] = {1, 4, 16, 64}; auto info = [&](const char* w) { std::size_t a = A[sym_choose(4, w)]; return score::memory::DataTypeSizeInfo{a * (1 + sym_choose(2, w)), a}; };
  if (hi) e.in_arg_type_info = info("in_type"); if (hr) e.return_type_info = info("ret_type"); if (e.queue_size * 128 * 2 > 500) sym_assume(!(hi & hr) | (e.queue_size < 2));
  { Q q{r, e}; auto si = q.GetInArgValuesQueueStorage(), sr = q.GetReturnValueQueueStorage(); sym_assert((si.has_value() == hi) & (sr.has_value() == hr), "storage exists exactly for what is passed");
    auto& g = q.GetTypeErasedElementInfo(); sym_assert((g.queue_size == e.queue_size) & (g.in_arg_type_info.has_value() == hi) & (g.return_type_info.has_value() == hr), "element info");
    std::size_t pos = sym_range(0, 4, "position"); pos = sym_concretize(pos); if (hi & hr) sym_reach("both");
    if (hi) { auto w = *e.in_arg_type_info; sym_assert(si->size() == w.Size() * e.queue_size, "size of the argument storage"); span<std::byte> x; bool ok = !sym_try_f([&] { x = L::GetInArgValuesElementStorage(pos, *si, e); }); sym_assert(ok == (pos < e.queue_size), "a position outside the queue is used"); if (ok) sym_assert((x.data() == si->data() + pos * w.Size()) & (x.size() == w.Size()) & (reinterpret_cast<std::uintptr_t>(x.data()) % w.Alignment() == 0), "storage of an argument position"); else sym_reach("outside"); }
    if (hr) { auto w = *e.return_type_info; sym_assert(sr->size() == w.Size() * e.queue_size, "size of the result storage"); span<std::byte> x; bool ok = !sym_try_f([&] { x = L::GetReturnValueElementStorage(pos, *sr, e); }); sym_assert(ok == (pos < e.queue_size), "a position outside the queue is used"); if (ok) sym_assert((x.data() == sr->data() + pos * w.Size()) & (x.size() == w.Size()) & (reinterpret_cast<std::uintptr_t>(x.data()) % w.Alignment() == 0), "storage of a result position"); }
    if (hi & hr) sym_assert((si->data() + si->size() <= sr->data()) | (sr->data() + sr->size() <= si->data()), "arguments and result share storage");
    for (int i = 0; i < r.k; i++) { bool m = false; if (hi) m |= (reinterpret_cast<unsigned char*>(si->data()) == r.at[i]) & (si->size() <= r.n[i]); if (hr) m |= (reinterpret_cast<unsigned char*>(sr->data()) == r.at[i]) & (sr->size() <= r.n[i]); sym_assert(m, "storage that was not allocated"); } sym_assert(r.k == hi + hr, "allocated regions"); }
  sym_assert(r.live == 0, "the storage is given back");
}
// ---- pointers to arguments and results
extern "C" void h_meth_ptr() {
  using P = I::MethodSignatureElementPtr<std::uint64_t>; using Q = I::MethodSignatureElementPtr<std::uint32_t>; std::uint64_t v[2] = {1, 2}; std::uint32_t w[2] = {3, 4}; bool act[2] = {false, false}; std::optional<P> p[2]; std::optional<Q> q; int own[2] = {-1, -1}, qown = -1; std::size_t pos[2] = {sym_u64("p0"), sym_u64("p1")};
  for (int i = 0; i < K; i++) {
    int a = sym_choose(2, "which");
    switch (sym_choose(5, "op")) {
      case 0: { int f = a; if (own[0] == f || own[1] == f || qown == f || p[a]) break; p[a].emplace(v[f], act[f], pos[f]); own[a] = f; } break;
      case 1: p[a].reset(); own[a] = -1; break;
      case 2: if (p[a] && !p[1 - a]) { p[1 - a].emplace(std::move(*p[a])); own[1 - a] = own[a]; own[a] = -1; sym_assert(p[a]->get() == nullptr, "a moved-from pointer still points"); p[a].reset(); } break;
      case 3: if (p[a] && !q) { q.emplace(w[own[a]], std::move(*p[a])); qown = own[a]; own[a] = -1; sym_assert(p[a]->get() == nullptr, "a handed over pointer still points"); if (sym_bool("drop_first")) p[a].reset(); else { p[a].reset(); } } break;
      default: q.reset(); qown = -1; break;
    }
    for (int f = 0; f < 2; f++) sym_assert(act[f] == ((own[0] == f) | (own[1] == f) | (qown == f)), "the storage is marked in use exactly while a pointer to it lives");
    for (int b = 0; b < 2; b++) if (p[b]) { sym_assert((p[b]->get() == &v[own[b]]) & (&**p[b] == &v[own[b]]) & (p[b]->operator->() == &v[own[b]]) & (p[b]->GetQueuePosition() == pos[own[b]]), "pointer to the wrong element"); }
    if (q) sym_assert((q->get() == &w[qown]) & (q->GetQueuePosition() == pos[qown]), "converted pointer");
  } sym_reach("done");
}
// ---- the whole way of a call; the service side lives in the same process behind a stand-in for messaging
alignas(64) static unsigned char g_skel_mem[64], g_base_mem[64], g_proxy_mem[64];
void L::Skeleton::RegisterMethod(const L::UniqueMethodIdentifier, L::SkeletonMethod&) {}
void L::Proxy::RegisterMethod(const L::UniqueMethodIdentifier, L::ProxyMethod&) noexcept {}
I::QualityType L::Proxy::GetQualityType() const noexcept { return I::QualityType::kASIL_QM; }
pid_t L::Proxy::GetSourcePid() const noexcept { return 77; }
I::SkeletonBaseView::SkeletonBaseView(I::SkeletonBase& s) : skeleton_base_{s} {}
static int g_methods;
void I::SkeletonBaseView::RegisterMethod(std::string_view, I::ReferenceToMoveable<I::SkeletonMethodBase>::Reference&) { g_methods++; }
struct Msg : Messaging { std::optional<MethodCallHandler> h; I::QualityType q{}; L::ProxyMethodInstanceIdentifier id{}; uid_t uid = 0; bool fail = false; int calls = 0; 
  score::safecpp::Scope<> scope;
  score::Result<L::MethodCallRegistrationGuard> RegisterMethodCallHandler(const I::QualityType a, const L::ProxyMethodInstanceIdentifier i, MethodCallHandler c, const uid_t u) override { if (fail) return score::MakeUnexpected(I::ComErrc::kBindingFailure); q = a; id = i; uid = u; h.emplace(std::move(c)); return L::MethodCallRegistrationGuardFactory::Create(*this, a, i, scope); }
  void UnregisterMethodCallHandler(const I::QualityType, L::ProxyMethodInstanceIdentifier) override { h.reset(); }
  score::Result<void> CallMethod(const I::QualityType a, const L::ProxyMethodInstanceIdentifier& i, const std::size_t pos, const pid_t p) override { calls++; sym_assert((a == q) & (i == id) & (p == 77) & (pos == 0), "the call goes to another method, position or process"); if (fail) return score::MakeUnexpected(I::ComErrc::kBindingFailure); (*h)(pos); return {}; } };
struct A2 { std::uint32_t x{11}; std::uint16_t y{12}; }; struct alignas(16) R2 { std::uint64_t lo{7}; std::uint8_t hi{8}; };
struct PB : I::ProxyBinding { bool IsEventProvided(const std::string_view) const override { return true; } score::Result<void> SetupMethods(std::size_t) override { return {}; } void PrepareDeinitialize() override {} void FinalizeDeinitialize() override {} };
template <class Sig> struct Chain; template <class R, class... A> struct Chain<R(A...)> {
  Rt rt; Msg m; hx::HeapResource heap; L::ProxyMethodInstanceIdentifier id{{7, 3}, {5, I::MethodType::kMethod}}; std::optional<L::TypeErasedCallQueue> q; L::ProxyMethod* lp = nullptr; L::SkeletonMethod* ls = nullptr; std::optional<I::SkeletonMethod<R(A...)>> sm; std::optional<I::ProxyMethod<R(A...)>> pm; score::safecpp::Scope<> scope; PB pb; L::TypeErasedCallQueue::TypeErasedElementInfo info{{}, {}, 1};
  template <class H> Chain(H&& h, bool subscribe = true) {
    g_rt = &rt; g_msg = &m; if constexpr (sizeof...(A) != 0) info.in_arg_type_info = I::CreateDataTypeSizeInfoFromTypes<A...>(); if constexpr (!std::is_void_v<R>) info.return_type_info = I::CreateDataTypeSizeInfoFromTypes<R>(); q.emplace(heap, info);
    auto s = std::make_unique<L::SkeletonMethod>(*reinterpret_cast<L::Skeleton*>(g_skel_mem), id.unique_method_identifier); ls = s.get(); sm.emplace(*reinterpret_cast<I::SkeletonBase*>(g_base_mem), "m", std::move(s), I::MethodType::kMethod); sym_assert(!ls->IsRegistered(), "a handler before any was registered");
    sym_assert(sm->RegisterHandler(std::forward<H>(h)).has_value(), "register");
    sym_assert(ls->IsRegistered(), "no handler after one was registered"); auto p = std::make_unique<L::ProxyMethod>(*reinterpret_cast<L::Proxy*>(g_proxy_mem), id, info); lp = p.get(); pm.emplace("m", std::move(p));
    if (subscribe) sub(); }
  void sub() { lp->SetInArgsAndReturnStorages(q->GetInArgValuesQueueStorage(), q->GetReturnValueQueueStorage()); auto r = ls->OnProxyMethodSubscribeFinished(info, q->GetInArgValuesQueueStorage(), q->GetReturnValueQueueStorage(), id, scope, 1000, 77, I::QualityType::kASIL_QM); sym_assert(r.has_value(), "subscribe"); sym_assert((m.uid == 1000) & (m.q == I::QualityType::kASIL_QM) & (m.id == id), "the handler is registered for another user, quality or method"); lp->MarkSubscribed(); sym_assert(lp->IsSubscribed(), "subscribed"); if (sym_bool("init")) { bool e = sizeof...(A) != 0 || !std::is_void_v<R>; if (e) sym_assert(pm->InitializeInArgsAndReturnValues(pb).has_value(), "initialisation"); } }
};
static R2 fn(const A2& a, std::uint8_t b) { R2 r; r.lo = (static_cast<std::uint64_t>(a.x) << 16 | a.y) ^ b; r.hi = static_cast<std::uint8_t>(b + 1); return r; }
extern "C" void h_meth_call() {
  using Sig = R2(A2, std::uint8_t); int runs = 0; A2 sa; std::uint8_t sb = 0; Chain<Sig> c{[&](R2& r, const A2& a, const std::uint8_t& b) { runs++; sa = a; sb = b; sym_assert((reinterpret_cast<std::uintptr_t>(&r) % alignof(R2) == 0), "the result is not aligned"); r = fn(a, b); }};
  using Args = std::tuple<I::MethodInArgPtr<A2>, I::MethodInArgPtr<std::uint8_t>>; std::optional<Args> held; std::optional<I::MethodReturnTypePtr<R2>> ret; R2 want; bool subd = true;
  for (int i = 0; i < K; i++) { int before = runs; bool busy = held.has_value() || ret.has_value(); c.m.fail = sym_bool("failing"); A2 a; a.x = sym_u32("x"); a.y = sym_u16("y"); std::uint8_t b = sym_u8("b"); bool called = false; std::optional<score::Result<I::MethodReturnTypePtr<R2>>> r;
    auto& pm = *c.pm;
    switch (sym_choose(6, "op")) {
      case 0: { r.emplace(pm(a, b)); if (busy) { sym_assert(!r->has_value() && r->error() == I::ComErrc::kCallQueueFull, "a call while its storage is in use"); sym_reach("full"); } else if (!subd) { sym_assert(!r->has_value(), "a call that is not subscribed succeeds"); sym_reach("unsubscribed"); } else called = true; } break;
      case 1: { auto al = pm.Allocate(); if (busy) { sym_assert(!al.has_value() && al.error() == I::ComErrc::kCallQueueFull, "storage in use is given out again"); sym_reach("full"); } else if (!subd) sym_assert(!al.has_value(), "storage before subscription"); else { sym_assert(al.has_value(), "free storage is refused"); held.emplace(std::move(al).value()); auto& [p, q] = *held; *p = a; *q = b; sym_assert((p->x == a.x) & (p->y == a.y) & (*q == b), "arguments share storage"); } } break;
      case 2: if (held) { auto& [p, q] = *held; a = *p; b = *q; r.emplace(pm(std::move(p), std::move(q))); held.reset(); if (!subd) sym_assert(!r->has_value(), "a call that is not subscribed succeeds"); else called = true; } break;
      case 3: if (sym_bool("args")) held.reset(); else { ret.reset(); } break;
      case 4: { I::ProxyMethod<Sig> o{std::move(pm)}; c.pm.emplace(std::move(o)); sym_reach("moved"); } break;
      default: if (subd) { c.lp->MarkUnsubscribed(); subd = false; } else { c.lp->MarkSubscribed(); subd = true; } break;
    }
    if (called) { if (c.m.fail) { sym_assert(!r->has_value(), "a failed call reports success"); sym_assert(runs == before, "calls"); sym_reach("failed"); } else { sym_assert(r->has_value(), "a call fails without reason"); sym_assert(runs == before + 1, "the handler runs once per call"); sym_assert((sa.x == a.x) & (sa.y == a.y) & (sb == b), "the handler sees other arguments"); want = fn(a, b); ret.emplace(std::move(*r).value()); sym_reach("called"); } }
    else sym_assert(runs == before, "the handler runs without a call");
    if (ret) sym_assert(((*ret)->lo == want.lo) & ((*ret)->hi == want.hi), "the result changes");
  }
}
extern "C" void h_meth_kinds() {
  std::uint64_t v = sym_u64("v");
  { Chain<std::uint64_t()> c{[&](std::uint64_t& r) { r = v; }}; { auto r = (*c.pm)(); sym_assert(r.has_value() && *r.value() == v, "result without arguments"); auto r2 = (*c.pm)(); sym_assert(!r2.has_value() && r2.error() == I::ComErrc::kCallQueueFull, "the result in use is overwritten"); sym_assert(*r.value() == v, "result changed"); } auto r3 = (*c.pm)(); sym_assert(r3.has_value(), "released result storage can be used again"); }
  { std::uint64_t got = 0; std::uint8_t g2 = 0; Chain<void(std::uint8_t, std::uint64_t)> c{[&](const std::uint8_t& a, const std::uint64_t& b) { g2 = a; got = b; }}; for (int i = 0; i < 2; i++) { got = 0; auto r = (*c.pm)(std::uint8_t{3}, v); sym_assert(r.has_value() & (got == v) & (g2 == 3), "arguments without result"); }
    { auto al = c.pm->Allocate(); sym_assert(al.has_value(), "allocate"); auto& [p, q] = al.value(); *p = 5; *q = v + 1; sym_assert(!(*c.pm)(std::uint8_t{1}, v).has_value(), "arguments in use are overwritten"); sym_assert((*p == 5) & (*q == v + 1), "arguments changed"); auto r = (*c.pm)(std::move(p), std::move(q)); sym_assert(r.has_value() & (got == v + 1) & (g2 == 5), "zero copy arguments"); } auto r = (*c.pm)(std::uint8_t{3}, v); sym_assert(r.has_value(), "storage is released after a call"); }
  { int n = 0; Chain<void()> c{[&]() { n++; }}; sym_assert((*c.pm)().has_value() && (*c.pm)().has_value() && n == 2, "call without arguments and result"); c.m.fail = true; sym_assert(!(*c.pm)().has_value() && n == 2, "failed call"); }
  sym_reach("done");
}
