// SOURCES: @mem @fakert score/mw/com/impl/generic_proxy_event.cpp score/mw/com/impl/proxy_event_base.cpp score/mw/com/impl/sample_reference_tracker.cpp score/mw/com/impl/proxy_event_binding_base.cpp score/mw/com/impl/com_error.cpp score/mw/com/impl/flag_owner.cpp score/mw/com/impl/tracing/proxy_event_tracing.cpp
// DEFS: -DSCOPE_RW=1
// ENTRY: h_user property=C40 reach=subscribed,mismatch,failed,unsubscribed,held,handled,silent,taken,full,own-unset,own-unsubscribe,moved,end quick=200 thorough=900 defs=K=4,NF=1,TYPED=1 tdefs=K=6,NF=2,TYPED=1
// ENTRY: h_user_generic property=C40 reach=subscribed,mismatch,failed,unsubscribed,held,handled,silent,taken,full,own-unset,own-unsubscribe,end quick=200 thorough=900 defs=K=4,NF=1 tdefs=K=6,NF=2
// ENTRY: h_user_par property=C40 reach=outside,in-other,in-own,ran,not-run,end quick=150 thorough=600 defs=PRE=2,TYPED=1 tdefs=PRE=3,TYPED=1
// BOUND: histories of 4 (6) calls of a consumer with up to 2 samples and any number up to 3 requested at a time, 1 (2) failures of the binding; a receive handler running in one thread while another thread removes or replaces it with 2 (3) preemptions
// ASSUME: the binding is a stand-in that hands out samples and calls the handler it was given; tracing is off; API calls of one event do not overlap (documented)
#include "sym.h"
#include "fake_rt.h"
#include "score/mw/com/impl/generic_proxy_event.h"
#include "score/mw/com/impl/proxy_event.h"
#ifndef K
#define K 4
#endif
#ifndef NF
#define NF 1
#endif
#ifndef PRE
#define PRE 2
#endif
namespace I = score::mw::com::impl; template <class T> using R = score::Result<T>; using St = I::SubscriptionState;
namespace {
auto err(I::ComErrc e = I::ComErrc::kInvalidHandle) { return score::MakeUnexpected(e); }
bool flip(const char* n) { return sym_choose(2, n) != 0; }
int g_faults; bool fault() { if (g_faults == 0 || !flip("fault")) return false; g_faults--; sym_reach("failed"); return true; }
#ifdef TYPED
using T = std::uint32_t; using Base = I::ProxyEventBinding<T>; using Ev = I::ProxyEvent<T>;
#else
using T = void; using Base = I::GenericProxyEventBinding; using Ev = I::GenericProxyEvent;
#endif
std::uint32_t g_data[4]; int g_out[4];
struct Bd final : Base { std::optional<std::size_t> n; bool pending = false; std::weak_ptr<I::ScopedEventReceiveHandler> h; int fresh = 0; std::size_t avail = 0; bool refuse = true;
  bool fails() { return refuse && fault(); }
  R<void> Subscribe(const std::size_t k) noexcept override { sym_assert(!n, "subscribed twice"); if (fails()) return err(); n = k; return {}; } void Unsubscribe() noexcept override { sym_assert(n.has_value(), "not subscribed"); n.reset(); h.reset(); }
  St GetSubscriptionState() const noexcept override { return !n ? St::kNotSubscribed : pending ? St::kSubscriptionPending : St::kSubscribed; }
  R<void> SetReceiveHandler(std::weak_ptr<I::ScopedEventReceiveHandler> w) noexcept override { if (fails()) return err(); h = std::move(w); return {}; } R<void> UnsetReceiveHandler() noexcept override { h.reset(); if (fails()) return err(); return {}; }
  R<void> SetSubscriptionStateChangeHandler(I::SubscriptionStateChangeHandler) noexcept override { std::abort(); } R<void> UnsetSubscriptionStateChangeHandler() noexcept override { std::abort(); }
  R<std::size_t> GetNumNewSamplesAvailable() const override { if (!n) return err(I::ComErrc::kNotSubscribed); if (refuse && fault()) return err(); return avail; }
  std::optional<std::uint16_t> GetMaxSampleCount() const noexcept override { if (!n) return {}; return static_cast<std::uint16_t>(*n); } I::BindingType GetBindingType() const noexcept override { return I::BindingType::kLoLa; } void NotifyServiceInstanceChangedAvailability(bool, pid_t) noexcept override {}
  std::size_t want = 0; // guards the user may get
  R<std::size_t> get(Base::Callback& c, I::TrackerGuardFactory& f) { if (!n) return err(I::ComErrc::kNotSubscribed); sym_assert(f.GetNumAvailableGuards() == want, "as many samples as requested and free can be handed out"); if (fails()) return err(); std::size_t k = 0; for (int i = 0; i < 4 && k < avail; i++) { if (g_out[i]) continue; auto g = f.TakeGuard(); if (!g) break; g_out[i] = 1; c(MakeSamplePtr(score::mw::com::impl::mock_binding::SamplePtr<T>{&g_data[i], [i](T*) { g_out[i] = 0; }}, std::move(*g)), 0U); k++; } if (k == avail || k == want) fresh = 0; return k; }
#ifdef TYPED
  R<std::size_t> GetNewSamples(Callback&& c, I::TrackerGuardFactory& f) noexcept override { return get(c, f); }
#else
  R<std::size_t> GetNewSamples(Callback&& c, I::TrackerGuardFactory& f) override { return get(c, f); } std::size_t GetSampleSize() const noexcept override { return 4; } bool HasSerializedFormat() const noexcept override { return false; }
#endif
};
void start() { g_rt = new Rt; g_faults = NF; }
void history() { start();
  auto* b = new Bd; std::unique_ptr<Ev> ev{new Ev{"e", std::unique_ptr<Base>{b}}}; std::optional<I::SamplePtr<T>> held[4]; int nheld = 0; bool sub = false, set = false, own = false; std::size_t max = 0; int calls = 0, cur = 0, last = 0, own_act = 0; std::shared_ptr<I::ScopedEventReceiveHandler> kept;
  auto unsub = [&] { ev->Unsubscribe(); sym_assert(!b->n, "still subscribed"); if (sub) set = false; sub = false; };
  auto unset = [&] { const int left = g_faults; const auto r = ev->UnsetReceiveHandler(); sym_assert(r.has_value() || (left != g_faults && r.error() == I::ComErrc::kUnsetFailure), "removing the handler"); set = false; };
  auto handler = [&](int id) { return [&, id] { calls++; last = id; if (own_act == 1) { unset(); sym_reach("own-unset"); } else if (own_act == 2 && nheld == 0) { unsub(); sym_reach("own-unsubscribe"); } }; };
  auto check = [&] { sym_assert(ev->GetSubscriptionState() == (!sub ? St::kNotSubscribed : b->pending ? St::kSubscriptionPending : St::kSubscribed), "the state of the subscription"); if (sub) sym_assert(ev->GetFreeSampleCount() == max - static_cast<std::size_t>(nheld), "free samples: what was subscribed less what is held"); };
  auto notify = [&](std::shared_ptr<I::ScopedEventReceiveHandler> h, bool expect) { const int c = calls; const bool mine = expect; if (h) (*h)(); sym_assert(calls == c + (mine ? 1 : 0), mine ? "the handler is not called" : "a handler is called that was removed"); if (mine) sym_assert(last == cur, "an earlier handler is called"); sym_reach(mine ? "handled" : "silent"); };
  for (int i = 0; i < K; i++) { const int left = g_faults;
    switch (sym_choose(8, "op")) {
      case 0: { const std::size_t m = sym_choose(2, "samples") + 1U; b->pending = flip("provider away"); const auto r = ev->Subscribe(m); if (sub) { sym_assert(r.has_value() == (m == max), "subscribing again is possible with the same number of samples only"); if (!r) { sym_assert(r.error() == I::ComErrc::kMaxSampleCountNotRealizable, "the error of subscribing with another number"); sym_reach("mismatch"); } } else { sym_assert(r.has_value() == (left == g_faults), "subscribing"); if (r) { sub = true; max = m; sym_reach("subscribed"); } else sym_assert(r.error() == I::ComErrc::kBindingFailure, "the error of a failed subscription"); } break; }
      case 1: { if (nheld && sub) { sym_reach("held"); sym_abort_ok(1); ev->Unsubscribe(); sym_assert(false, "unsubscribed while samples are held"); } const bool was = sub; kept = b->h.lock(); unsub(); if (was) { notify(kept, false); sym_reach("unsubscribed"); } else kept.reset(); break; }
      case 2: { kept = b->h.lock(); const int id = ++cur; const auto r = ev->SetReceiveHandler(handler(id)); sym_assert(r.has_value() == (left == g_faults), "setting the handler"); if (r) { sym_assert(!b->h.expired(), "the binding has a handler"); if (kept) { const int c = calls; (*kept)(); sym_assert(calls == c, "a handler is called that was replaced"); } set = true; } else { sym_assert(r.error() == I::ComErrc::kSetHandlerNotSet, "the error of setting the handler"); set = false; b->h.reset(); } kept.reset(); break; }
      case 3: { kept = b->h.lock(); unset(); if (kept) notify(kept, false); kept.reset(); break; }
      case 4: { own_act = sym_choose(3, "inside the handler"); auto h = b->h.lock(); sym_assert((h != nullptr) == set, "the binding has the handler exactly while it is set"); if (!h) own_act = 0; notify(std::move(h), set); own_act = 0; break; }
      case 5: { const std::size_t m = sym_range(0, 3, "at most"), free = max - static_cast<std::size_t>(nheld); b->avail = sym_choose(4, "available"); b->want = m < free ? m : free; int got = 0; const auto r = ev->GetNewSamples([&](I::SamplePtr<T> s) noexcept { sym_assert(static_cast<bool>(s) && s.get() != nullptr, "an empty sample"); for (auto& x : held) if (!x) { x.emplace(std::move(s)); break; } nheld++; got++; }, m);
        if (!sub) sym_assert(!r && got == 0, "samples without a subscription"); else if (b->want == 0) { sym_assert(!r && r.error() == I::ComErrc::kMaxSamplesReached && got == 0, "no sample is free"); sym_reach("full"); } else if (left != g_faults) sym_assert(!r && r.error() == I::ComErrc::kBindingFailure, "the error of fetching"); else { const std::size_t e = b->avail < b->want ? b->avail : b->want; sym_assert(r.has_value() && *r == e && static_cast<std::size_t>(got) == e, "every new sample that is requested and free is handed out"); sym_reach("taken"); }
        break; }
      case 6: { const int k = sym_choose(3, "sample"); sym_assume(held[k].has_value()); if (flip("by assignment")) { *held[k] = nullptr; } held[k].reset(); nheld--; int out = 0; for (int o : g_out) out += o; sym_assert(out == nheld, "a sample that is dropped returns to the binding"); break; }
      default:
#ifdef TYPED
        if (flip("move")) { if (flip("assign")) { std::unique_ptr<Ev> to{new Ev{"x", std::make_unique<Bd>()}}; *to = std::move(*ev); ev = std::move(to); } else { std::unique_ptr<Ev> to{new Ev{std::move(*ev)}}; ev = std::move(to); } sym_reach("moved"); break; }
#endif
        b->avail = sym_choose(4, "available"); const auto r = ev->GetNumNewSamplesAvailable(); if (!sub) sym_assert(!r && r.error() == I::ComErrc::kNotSubscribed, "new samples without a subscription"); else if (left != g_faults) sym_assert(!r && r.error() == I::ComErrc::kBindingFailure, "the error of counting"); else sym_assert(r.has_value() && *r == b->avail, "the number of new samples");
    }
    check();
  }
  if (nheld) { sym_abort_ok(1); const bool d = sub; ev.reset(); sym_assert(!d, "an event ends while its samples are held"); }
  else ev.reset();
  sym_reach("end");
}
void par() { start(); g_faults = 0; auto* ba = new Bd; auto* bb = new Bd; Ev a{"a", std::unique_ptr<Base>{ba}}, b{"b", std::unique_ptr<Base>{bb}}; sym_assert(a.Subscribe(1).has_value() && b.Subscribe(1).has_value(), "subscribe");
  const int how = sym_choose(3, "removed from"), act = sym_choose(3, "removed by"); static int in, runs, done; static bool away; in = runs = done = 0; away = false;
  auto remove = [&] { if (act == 0) sym_assert(b.UnsetReceiveHandler().has_value(), "unset"); else if (act == 1) b.Unsubscribe(); else sym_assert(b.SetReceiveHandler([] {}).has_value(), "set"); };
  auto over = [&] { remove(); sym_assert(in == 0, "the handler still runs after it was removed"); away = true; };
  sym_assert(b.SetReceiveHandler([&] { sym_assert(!away, "the handler runs after it was removed"); in++; sym_yield(); if (how == 2 && act != 2) { remove(); } sym_yield(); in--; runs++; }).has_value(), "set"); sym_assert(a.SetReceiveHandler([&] { done++; if (how == 1) over(); }).has_value(), "set");
  auto wb = bb->h.lock(), wa = ba->h.lock(); sym_shared(&in, sizeof in, 3); sym_shared(&away, sizeof away, 3);
  sym_par(PRE, 0, 0, [&] { (*wb)(); }, [&] { if (how == 0) over(); else (*wa)(); });
  sym_assert(how == 0 || done == 1, "the other handler runs"); if (how == 2) sym_assert(runs == 1, "a handler that removes itself runs"); sym_reach(how == 0 ? "outside" : how == 1 ? "in-other" : "in-own"); sym_reach(runs ? "ran" : "not-run");
  if (how != 2) { const int r = runs; (*wb)(); sym_assert(runs == r, "the handler runs after it was removed"); } else if (act == 0) sym_assert((wb.reset(), bb->h.expired()), "a handler that removed itself stays"); else if (act == 1) sym_assert(bb->h.expired(), "a handler that unsubscribed stays");
  // handlers nested in one thread: the outer one may still remove itself
  sym_reach("end");
} }
extern "C" void h_user() { history(); }
extern "C" void h_user_generic() { history(); }
extern "C" void h_user_par() { par(); }
