// SOURCES: @subsm @fakert score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp score/mw/com/impl/bindings/lola/rollback_synchronization.cpp score/mw/com/impl/bindings/lola/service_data_control.cpp score/mw/com/impl/bindings/lola/event_control.cpp score/mw/com/impl/bindings/lola/application_id_pid_mapping.cpp score/mw/com/impl/bindings/lola/application_id_pid_mapping_entry.cpp score/mw/com/impl/bindings/lola/skeleton_instance_identifier.cpp
// ENTRY: h_sm property=C13 reach=subscribed,pending,unsubscribed,rejected,reregistered,handler_kept quick=150 thorough=900 defs=K=5 tdefs=K=7
// ENTRY: h_sm_deep property=C13 reach=subscribed,pending,unsubscribed,reregistered,handler_kept quick=150 thorough=900 defs=K=8 tdefs=K=10
// ENTRY: h_sm_par property=C13 reach=both,cycle quick=120 thorough=900 defs=PRE=2 tdefs=PRE=4
// ENTRY: h_rollback property=C07 reach=clean,resubscribed,mid_operation,finished,held quick=200 thorough=900 defs=SAMPLES=1 tdefs=SAMPLES=2
// ENTRY: h_rollback_other property=C07 reach=rolled,untouched,second quick=100 thorough=600
// ENTRY: h_log_two_threads property=C07 reach=both quick=100 thorough=900 defs=PRE=2 tdefs=PRE=4
// BOUND: state machine histories of 5 (7) operations, and of 8 (10) operations with an effect and one consumer, with every sample count up to 255 and every provider pid; two threads of one proxy with 2 (4) preemptions
// BOUND: crash of a consumer at every shared memory access of subscribe, receive (1 or 2 samples), release and unsubscribe; 2 slots with any contents
// ASSUME: a provider that disappears a second time without coming back terminates the consumer by design; the messaging layer is a recorder
#include "hx.h"
#include "fake_rt.h"
#include "score/mw/com/impl/bindings/lola/subscription_state_machine.h"
#include "score/mw/com/impl/com_error.h"
#include "score/mw/com/impl/bindings/lola/service_data_control.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.h"
#ifndef PRE
#define PRE 2
#endif
#ifndef K
#define K 4
#endif
#ifndef SAMPLES
#define SAMPLES 1
#endif

namespace {
using View = ConsumerEventDataControlLocalView<>;
constexpr std::size_t kSlots = 2;
using State = SubscriptionStateMachineState;
}
static void sm_histories(const bool deep) { // deep: calls without an effect are left out
  Messaging msg; g_msg = &msg; Rt rt; g_rt = &rt; hx::HeapResource res; EventControl ec{kSlots, 2, true, res}; ConsumerEventDataControlLocalView<> view{ec.data_control}; TransactionLogId id = 5;
  pid_t pid = sym_u32("pid"); ElementFqId fq{1, 2, 3, ServiceElementType::EVENT}; std::uint16_t max_slots = kSlots;
  // other subscribers
  int others = deep ? 0 : sym_choose(3, "others"); int sets = 0; ConsumerEventDataControlLocalView<> ov[2] = {ConsumerEventDataControlLocalView<>{ec.data_control}, ConsumerEventDataControlLocalView<>{ec.data_control}}; std::optional<TransactionLogRegistrationGuard> og[2]; std::uint32_t taken = 0;
  for (int i = 0; i < others; i++) { auto r = ec.transaction_log_set_.RegisterProxyElement(9, ov[i]); og[i].emplace(std::move(r).value()); sym_assume(ec.subscription_control.Subscribe(1) == SubscribeResult::kSuccess); taken++; }
  bool changes_ok = true; State last = State::NOT_SUBSCRIBED_STATE; int changes = 0;
  auto scope = std::make_shared<score::safecpp::Scope<>>(); std::shared_ptr<ScopedEventReceiveHandler> hd[2] = {std::make_shared<ScopedEventReceiveHandler>(*scope, [] {}), std::make_shared<ScopedEventReceiveHandler>(*scope, [] {})};
  { SubscriptionStateMachine sm{QualityType::kASIL_QM, fq, pid, view, ec.subscription_control, ec.transaction_log_set_, id}; SubscriptionState seen = SubscriptionState::kNotSubscribed; sm.SetSubscriptionStateChangeHandler([&](SubscriptionState s) { seen = s; return true; });
  State st = State::NOT_SUBSCRIBED_STATE; bool avail = true, reg_known = true; ScopedEventReceiveHandler *stored = nullptr, *reg = nullptr; std::uint16_t n = 0;
  for (int i = 0; i < K; i++) {
    const int op = sym_choose(6, "op");
    if (deep) { const bool sub = st != State::NOT_SUBSCRIBED_STATE; if (op == 0 ? sub : op == 1 ? !sub : op == 2 ? !avail : op == 3 ? avail : op == 4 ? sets >= 2 : !stored && !reg) { sym_assume(false); } }
    switch (op) {
      case 0: { std::uint16_t q = deep ? 1 : sym_range(1, 255, "samples"); auto r = sm.SubscribeEvent(q);
        if (st == State::NOT_SUBSCRIBED_STATE) { bool ok = others < 2 && taken + q <= max_slots; sym_assert(r.has_value() == ok, "subscription must be granted exactly if a subscriber slot and enough sample slots are left");
          if (ok) { n = q; st = avail ? State::SUBSCRIBED_STATE : State::SUBSCRIPTION_PENDING_STATE; if (stored && avail) { reg = stored; stored = nullptr; sym_reach("handler_kept"); } } else { sym_reach("rejected"); sym_assert(r.error() == (others < 2 ? ComErrc::kMaxSampleCountNotRealizable : ComErrc::kMaxSubscribersExceeded), "reason of the rejection"); } }
        else sym_assert(r.has_value() == (q == n), "subscribing again is a no-op for the same and an error for another sample count");
        break; }
      case 1: sm.UnsubscribeEvent(); if (st != State::NOT_SUBSCRIBED_STATE) { st = State::NOT_SUBSCRIBED_STATE; reg = nullptr; reg_known = true; n = 0; sym_reach("unsubscribed"); } break;
      case 2: if (st == State::SUBSCRIPTION_PENDING_STATE) { sym_assume(false); } sm.StopOfferEvent(); avail = false; if (st == State::SUBSCRIBED_STATE) st = State::SUBSCRIPTION_PENDING_STATE; break;
      case 3: { if (st == State::SUBSCRIBED_STATE) sym_assume(false); pid_t p = sym_u32("pid"); int before = msg.reregistered; sm.ReOfferEvent(p); pid = p; avail = true;
        if (st == State::SUBSCRIPTION_PENDING_STATE) { st = State::SUBSCRIBED_STATE; if (stored) { reg = stored; stored = nullptr; reg_known = true; } else if (reg && reg_known) { sym_assert(msg.reregistered == before + 1, "a handler is not registered again with the restarted provider"); sym_reach("reregistered"); } } break; }
      case 4: { auto h = hd[deep ? sets++ : sym_choose(2, "handler")]; sm.SetReceiveHandler(h); if (st == State::SUBSCRIBED_STATE) { reg = h.get(); reg_known = true; } else stored = h.get(); break; }
      case 5: sm.UnsetReceiveHandler(); if (st == State::SUBSCRIBED_STATE) { reg = nullptr; reg_known = true; } else { if (st == State::SUBSCRIPTION_PENDING_STATE && reg) reg_known = false; stored = nullptr; } break;
    }
    sym_assert(sm.GetCurrentState() == st, "subscription state"); if (st == State::SUBSCRIBED_STATE) sym_reach("subscribed"); if (st == State::SUBSCRIPTION_PENDING_STATE) sym_reach("pending");
    sym_assert(seen == SubscriptionStateMachineStateToSubscriptionState(st), "the state change handler does not know the current state");
    auto m = sm.GetMaxSampleCount(); sym_assert(m.has_value() == (st != State::NOT_SUBSCRIBED_STATE), "sample count known exactly while subscribed"); if (m.has_value()) sym_assert(*m == n, "sample count"); sym_assert(sm.GetSlotCollectorLockFree().has_value() == m.has_value(), "samples can be collected exactly while subscribed");
    if (reg_known) { sym_assert(msg.registered == (reg != nullptr), "receive handler registered exactly if the user asked for it"); if (reg) { sym_assert(msg.h == reg, "a handler other than the one set is registered"); if (st == State::SUBSCRIBED_STATE) sym_assert(msg.pid == pid, "receive handler registered with a provider that is gone"); sym_assert(msg.id == fq && msg.q == QualityType::kASIL_QM, "registered for another event"); } }
  }
  if (st != State::NOT_SUBSCRIBED_STATE) { sm.UnsubscribeEvent(); sym_assert(!msg.registered, "a handler stays registered after unsubscribing"); }
  }
  // all that the subscription took is given back
  if (others < 2) { std::uint16_t left = max_slots - taken; sym_assert(ec.subscription_control.Subscribe(left) == SubscribeResult::kSuccess, "sample or subscriber capacity is lost"); ConsumerEventDataControlLocalView<> v{ec.data_control}; sym_assert(ec.transaction_log_set_.RegisterProxyElement(8, v).has_value(), "transaction log is lost"); }
}
extern "C" void h_sm() { sm_histories(false); }
extern "C" void h_sm_deep() { sm_histories(true); }
extern "C" void h_sm_par() {
  Messaging msg; g_msg = &msg; Rt rt; g_rt = &rt; hx::HeapResource res; EventControl ec{kSlots, 1, true, res}; ConsumerEventDataControlLocalView<> view{ec.data_control}; TransactionLogId id = 5; ElementFqId fq{1, 2, 3, ServiceElementType::EVENT};
  auto scope = std::make_shared<score::safecpp::Scope<>>(); auto hd = std::make_shared<ScopedEventReceiveHandler>(*scope, [] {});
  bool unsub = sym_choose(2, "unsubscribe"), reoffer = sym_choose(2, "reoffer"); pid_t p1 = sym_u32("pid"), p2 = sym_u32("pid"); { SubscriptionStateMachine sm{QualityType::kASIL_QM, fq, p1, view, ec.subscription_control, ec.transaction_log_set_, id};
  sym_par(PRE, 0, 0, [&] { sm.SetReceiveHandler(hd); auto r = sm.SubscribeEvent(1); sym_assert(r.has_value(), "subscription refused"); if (unsub) { sm.UnsubscribeEvent(); sym_reach("cycle"); } },
                     [&] { sm.StopOfferEvent(); if (reoffer) sm.ReOfferEvent(p2); });
  State st = sm.GetCurrentState(); sym_assert(st == (unsub ? State::NOT_SUBSCRIBED_STATE : reoffer ? State::SUBSCRIBED_STATE : State::SUBSCRIPTION_PENDING_STATE), "subscription state after a concurrent provider restart");
  if (st == State::SUBSCRIBED_STATE) { sym_assert(msg.registered, "receive handler lost"); sym_assert(msg.pid == p2, "receive handler registered with a provider that is gone"); sym_reach("both"); }
  if (st != State::NOT_SUBSCRIBED_STATE) sm.UnsubscribeEvent(); sym_assert(!msg.registered, "a handler stays registered after unsubscribing"); }
  sym_assert(ec.subscription_control.Subscribe(kSlots) == SubscribeResult::kSuccess, "capacity is lost");
}
extern "C" void h_rollback() {
  Messaging msg; g_msg = &msg; Rt rt; g_rt = &rt; hx::HeapResource res; ServiceDataControl sdc{1, res}; ElementFqId fq{1, 2, 3, ServiceElementType::EVENT};
  auto& ec = sdc.event_controls_.emplace(std::piecewise_construct, std::forward_as_tuple(fq), std::forward_as_tuple(static_cast<SlotIndexType>(kSlots), static_cast<std::uint8_t>(2), true, static_cast<score::memory::shared::ManagedMemoryResource&>(res))).first->second;
  TransactionLogId id = sym_u32("application"); sym_assume(id != kInvalidTransactionLogId); sym_assume(id != 77); std::uint64_t base[kSlots];
  for (std::size_t i = 0; i < kSlots; i++) { std::uint32_t t = sym_u32("ts"), r = sym_u32("refs"); sym_assume((t != 0) & (t != ~0u) & (r >= 1) & (r <= 1000)); base[i] = hx::slot(t, r); ec.data_control.state_slots_[i].store(base[i]); }
  sym_assume(hx::ts(base[0]) != hx::ts(base[1]));
  sym_shared(&ec.subscription_control, sizeof(ec.subscription_control), 1); sym_shared(ec.data_control.state_slots_.data(), sizeof(ControlSlotType) * kSlots, 1); hx::share_logs<TransactionLogSet, View>(ec.transaction_log_set_, 2, kSlots, ec.data_control);
  // another consumer process with a subscription and a reference on slot 0
  ConsumerEventDataControlLocalView<> ov{ec.data_control}; auto og = ec.transaction_log_set_.RegisterProxyElement(77, ov); { TransactionLogLocalView l{ec.transaction_log_set_.GetTransactionLog(og.value().GetTransactionLogIndex())}; l.SubscribeTransactionBegin(1); ec.subscription_control.Subscribe(1); l.SubscribeTransactionCommit(); l.ReferenceTransactionBegin(0); l.ReferenceTransactionCommit(0); }
  bool in_op = false, finished = false, holding = false, release = sym_choose(2, "release"), unsub = sym_choose(2, "unsubscribe");
  std::atomic<int> idle_word{0}; sym_shared(&idle_word, sizeof(idle_word), 1);
  auto consumer = [&] {
    ConsumerEventDataControlLocalView<> v{ec.data_control}; auto* sm = new SubscriptionStateMachine{QualityType::kASIL_QM, fq, 1, v, ec.subscription_control, ec.transaction_log_set_, id};
    in_op = true; auto r = sm->SubscribeEvent(1); in_op = false; sym_assert(r.has_value(), "subscription refused"); idle_word.store(2);
    in_op = true; auto s = sm->GetSlotCollectorLockFree()->GetNewSamplesSlotIndices(SAMPLES); in_op = false; holding = true; SlotIndexType k[4]; int n = 0; for (auto it = s.begin; it != s.end; ++it) k[n++] = *it;
    if (release || unsub) for (int i = 0; i < n; i++) { in_op = true; v.DereferenceEvent(k[i]); in_op = false; }
    if (unsub) { in_op = true; sm->UnsubscribeEvent(); in_op = false; }
    finished = true; idle_word.store(1);  // a crash point while no operation is running
  };
  unsigned crashed = sym_par(0, 1, 1, consumer);
  if (holding && !release && !unsub) sym_reach("held"); if (!crashed) sym_reach("finished"); bool idle = !in_op;
  rt.l.my_pid = 4711; auto rr = TransactionLogRollbackExecutor{sdc, SkeletonInstanceIdentifier{1, 3}, QualityType::kASIL_QM, 99, id}.RollbackTransactionLogs();
  if (idle) sym_assert(rr.has_value(), "a consumer that crashed between two operations cannot be restarted");
  bool same = true; for (std::size_t i = 0; i < kSlots; i++) { std::uint64_t w = ec.data_control.state_slots_[i].load(); sym_assert(hx::ts(w) == hx::ts(base[i]) && hx::rc(w) >= hx::rc(base[i]), "rolling back takes away references of other consumers"); if (rr.has_value()) sym_assert(w == base[i], "references of the crashed consumer are not released"); }
  if (!rr.has_value()) { sym_assert(rr.error() == ComErrc::kCouldNotRestartProxy, "unexpected error"); sym_reach("mid_operation"); }
  else {
    sym_reach("clean"); ConsumerEventDataControlLocalView<> v{ec.data_control}; SubscriptionStateMachine sm{QualityType::kASIL_QM, fq, 1, v, ec.subscription_control, ec.transaction_log_set_, id};
    sym_assert(sm.SubscribeEvent(1).has_value(), "the restarted consumer cannot subscribe again"); sym_reach("resubscribed"); sym_assert(ec.subscription_control.Subscribe(1) != SubscribeResult::kSuccess, "subscription count of the other consumer is lost"); sm.UnsubscribeEvent();
  }
  // the other consumer is not affected
  { TransactionLogLocalView l{ec.transaction_log_set_.GetTransactionLog(og.value().GetTransactionLogIndex())}; ov.DereferenceEvent(0); l.UnsubscribeTransactionBegin(); ec.subscription_control.Unsubscribe(1); l.UnsubscribeTransactionCommit(); sym_assert(!l.ContainsTransactions(), "log of the other consumer"); }
}
// several proxies of one crashed application, and one of another application
extern "C" void h_rollback_other() {
  Messaging msg; g_msg = &msg; Rt rt; g_rt = &rt; hx::HeapResource res; ServiceDataControl sdc{1, res}; ElementFqId fq{1, 2, 3, ServiceElementType::EVENT};
  auto& ec = sdc.event_controls_.emplace(std::piecewise_construct, std::forward_as_tuple(fq), std::forward_as_tuple(static_cast<SlotIndexType>(kSlots), static_cast<std::uint8_t>(4), true, static_cast<score::memory::shared::ManagedMemoryResource&>(res))).first->second;
  for (std::size_t i = 0; i < kSlots; i++) ec.data_control.state_slots_[i].store(hx::slot(10 + i, 0));
  TransactionLogId a = sym_u32("application"), b = sym_u32("application"); sym_assume((a != b) & (a != kInvalidTransactionLogId) & (b != kInvalidTransactionLogId)); pid_t old_pid = sym_u32("pid"), new_pid = sym_u32("pid"), provider = sym_u32("pid"); sym_assume((old_pid != new_pid) & (old_pid > 0) & (new_pid > 0));
  ConsumerEventDataControlLocalView<> v[3] = {ConsumerEventDataControlLocalView<>{ec.data_control}, ConsumerEventDataControlLocalView<>{ec.data_control}, ConsumerEventDataControlLocalView<>{ec.data_control}}; TransactionLogRegistrationGuard* g[3]; bool refs[3][kSlots]; std::uint32_t cnt[kSlots] = {}; int which_b = sym_choose(3, "other");
  rt.l.my_pid = old_pid; { auto first = TransactionLogRollbackExecutor{sdc, SkeletonInstanceIdentifier{1, 3}, QualityType::kASIL_QM, provider, a}.RollbackTransactionLogs(); sym_assert(first.has_value() && msg.outdated == 0, "first start of a consumer"); }
  for (int i = 0; i < 3; i++) { g[i] = new TransactionLogRegistrationGuard(ec.transaction_log_set_.RegisterProxyElement(i == which_b ? b : a, v[i]).value()); TransactionLogLocalView l{ec.transaction_log_set_.GetTransactionLog(g[i]->GetTransactionLogIndex())}; l.SubscribeTransactionBegin(1); { auto r = ec.subscription_control.Subscribe(i == 2 ? 0 : 1); sym_assert(r == SubscribeResult::kSuccess, "setup"); }
    l.SubscribeTransactionCommit();
    for (std::size_t s = 0; s < kSlots; s++) { refs[i][s] = sym_choose(2, "holds"); if (refs[i][s]) { l.ReferenceTransactionBegin(s); l.ReferenceTransactionCommit(s); ec.data_control.state_slots_[s].store(ec.data_control.state_slots_[s].load() + 1); if (i == which_b) cnt[s]++; } }
    if (i == 2) ec.transaction_log_set_.GetTransactionLog(g[i]->GetTransactionLogIndex()).subscription_max_sample_count_ = 0; }
  // the application restarts with a new process id; each of its proxies rolls back
  Rt rt2; g_rt = &rt2; rt2.l.my_pid = new_pid; msg.outdated = 0;
  for (int i = 0; i < 2; i++) { auto r = TransactionLogRollbackExecutor{sdc, SkeletonInstanceIdentifier{1, 3}, QualityType::kASIL_QM, provider, a}.RollbackTransactionLogs(); sym_assert(r.has_value(), "rollback fails"); sym_assert(msg.outdated == 1 && msg.outdated_pid == old_pid && msg.outdated_target == provider, "the provider is told exactly once about the outdated process"); }
  sym_reach("rolled"); for (std::size_t s = 0; s < kSlots; s++) sym_assert(ec.data_control.state_slots_[s].load() == hx::slot(10 + s, cnt[s]), "exactly the references of the crashed application are released");
  TransactionLogLocalView lb{ec.transaction_log_set_.GetTransactionLog(g[which_b]->GetTransactionLogIndex())}; for (std::size_t s = 0; s < kSlots; s++) if (refs[which_b][s]) v[which_b].DereferenceEvent(s);
  lb.UnsubscribeTransactionBegin(); ec.subscription_control.Unsubscribe(which_b == 2 ? 0 : 1); lb.UnsubscribeTransactionCommit(); sym_assert(!lb.ContainsTransactions(), "log of the other application"); sym_reach("untouched"); delete g[which_b];
  sym_assert(ec.subscription_control.Subscribe(kSlots) == SubscribeResult::kSuccess, "subscriptions of the crashed application are not given back"); ec.subscription_control.Unsubscribe(kSlots);
  // a proxy of the restarted application is in use while further proxies of it start
  { auto* w = new ConsumerEventDataControlLocalView<>{ec.data_control}; auto ng = ec.transaction_log_set_.RegisterProxyElement(a, *w); sym_assert(ng.has_value(), "no log after restart"); auto nl = [&] { return TransactionLogLocalView{ec.transaction_log_set_.GetTransactionLog(ng.value().GetTransactionLogIndex())}; };
    nl().SubscribeTransactionBegin(1); ec.subscription_control.Subscribe(1); nl().SubscribeTransactionCommit(); auto got = w->ReferenceNextEvent(0); sym_assert(got.has_value(), "setup");
    int calls = msg.outdated; auto r = TransactionLogRollbackExecutor{sdc, SkeletonInstanceIdentifier{1, 3}, QualityType::kASIL_QM, provider, a}.RollbackTransactionLogs(); sym_assert(r.has_value() && nl().ContainsTransactions(), "a further proxy of the same application rolls back one that is alive"); (void)calls;
    sym_assert(hx::rc(ec.data_control.state_slots_[*got].load()) == 1, "a further proxy of the same application rolls back one that is alive"); w->DereferenceEvent(*got); nl().UnsubscribeTransactionBegin(); ec.subscription_control.Unsubscribe(1); nl().UnsubscribeTransactionCommit(); sym_reach("second"); }
  sym_assert(ec.subscription_control.Subscribe(kSlots) == SubscribeResult::kSuccess, "capacity after restart");
  for (int i = 0; i < 4; i++) { auto* w = new ConsumerEventDataControlLocalView<>{ec.data_control}; auto r = ec.transaction_log_set_.RegisterProxyElement(6, *w); sym_assert(r.has_value(), "transaction logs of the crashed application are not given back"); new TransactionLogRegistrationGuard(std::move(r).value()); }
}
extern "C" void h_log_two_threads() {
  constexpr int M = 1; hx::HeapResource res; EventDataControl ctl{M, res}; TransactionLog log{M, res}; std::uint32_t t = sym_u32("ts"); sym_assume((t != 0) & (t < 0xFFFFFF00u)); ctl.state_slots_[0].store(hx::slot(t, 0));
  sym_shared(ctl.state_slots_.data(), sizeof(ControlSlotType), 1); sym_shared(log.reference_count_slots_.data(), sizeof(TransactionLogSlot) * M, 3); TransactionLogLocalView lv{log}; ConsumerEventDataControlLocalView<> v{ctl, lv}; auto first = v.ReferenceNextEvent(0); sym_assert(first.has_value(), "setup"); bool got = false;
  sym_par(PRE, 0, 0, [&] { v.DereferenceEvent(*first); },
    [&] { ProviderEventDataControlLocalView<> p{ctl}; auto s = p.AllocateNextSlot(); if (s.has_value()) p.EventReady(*s, t + 1); },
    [&] { auto r = v.ReferenceNextEvent(t); if (r.has_value()) { got = true; sym_reach("both"); } });
  std::uint64_t w = ctl.state_slots_[0].load(); sym_assert(hx::rc(w) == (got ? 1u : 0u), "reference count after concurrent release and receive"); sym_assert(lv.ContainsTransactions() == got, "the log does not describe the references held"); int n = 0; sym_assert(lv.RollbackSkeletonTracingElementLog([&](TransactionLog::SlotIndexType) { n++; }).has_value() && n == (got ? 1 : 0), "the log does not describe the references held");
}
