// SOURCES: @subs
// ENTRY: h_sub_seq property=C08 reach=ok,subs_full,slots_full,unsub,not_enforced quick=60 thorough=600 defs=K=4 tdefs=K=6
// ENTRY: h_sub_par property=C08 reach=both_ok,one_ok,churn quick=100 thorough=800 defs=PRE=5 tdefs=PRE=8
// ENTRY: h_log_par property=C10 reach=both,one,reuse quick=100 thorough=800 defs=PRE=4 tdefs=PRE=8
// ENTRY: h_log_three property=C10 reach=full quick=100 thorough=800 defs=PRE=3 tdefs=PRE=5
// BOUND: histories of 4 (6) subscribe/unsubscribe operations from the empty state; 2 threads with 5 (8) preemptions; every sample count up to 255 (what the proxy side accepts), every slot limit, subscriber limits 0, 1, 2, 3 and 255
// BOUND: transaction logs: 2 or 3 concurrent registrations, 1 to 3 logs
#include "hx.h"
#include "score/mw/com/impl/bindings/lola/event_subscription_control.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_set.h"
using namespace score::mw::com::impl::lola;
#ifndef PRE
#define PRE 2
#endif
#ifndef K
#define K 3
#endif
static const std::uint8_t kSubs[] = {0, 1, 2, 3, 255};
extern "C" void h_sub_seq() {
  std::uint8_t max_subs = kSubs[sym_choose(5, "max_subscribers")]; std::uint16_t max_slots = sym_u16("max_slots"); bool enforce = sym_choose(2, "enforce");
  EventSubscriptionControl<> c{max_slots, max_subs, enforce}; std::uint16_t held[K]; int n = 0; std::uint32_t sum = 0;
  for (int i = 0; i < K; i++) {
    if (n > 0 && sym_choose(2, "unsubscribe")) { int v = sym_choose(n, "who"); c.Unsubscribe(held[v]); sum -= held[v]; held[v] = held[--n]; sym_reach("unsub"); continue; }
    std::uint16_t q = sym_range(1, 255, "samples"); SubscribeResult r = c.Subscribe(q);
    bool room = n < max_subs, fits = !enforce || sum + q <= max_slots;
    sym_assert((r == SubscribeResult::kSuccess) == (room && fits), "a subscription is granted exactly if subscriber and sample limits allow it");
    if (r == SubscribeResult::kSuccess) { held[n++] = q; sum += q; sym_reach("ok"); if (!enforce && sum > max_slots) sym_reach("not_enforced"); }
    else if (!room) { if (max_subs) sym_assert(r == SubscribeResult::kMaxSubscribersOverflow, "reason: too many subscribers"); sym_reach("subs_full"); }
    else { sym_assert(r == SubscribeResult::kSlotOverflow, "reason: too many samples"); sym_reach("slots_full"); }
  }
}
extern "C" void h_sub_par() {
  std::uint8_t max_subs = 1 + sym_choose(2, "max_subscribers"); std::uint16_t max_slots = sym_u16("max_slots"); EventSubscriptionControl<> c{max_slots, max_subs, true};
  sym_shared(&c, sizeof(c), 1); std::uint16_t q[2] = {static_cast<std::uint16_t>(sym_range(1, 255, "q")), static_cast<std::uint16_t>(sym_range(1, 255, "q"))}; int active = 0; std::uint32_t sum = 0; bool ok[2] = {}; bool churn = sym_choose(2, "churn");
  auto t = [&](int i) {
    auto r = c.Subscribe(q[i]);
    if (r != SubscribeResult::kSuccess) return;
    active++; sum += q[i]; ok[i] = true; sym_assert(active <= max_subs, "more subscribers than configured"); sym_assert(sum <= max_slots, "more samples subscribed than slots");
    if (churn) { active--; sum -= q[i]; ok[i] = false; c.Unsubscribe(q[i]); sym_reach("churn"); } };
  sym_par(PRE, 0, 0, [&] { t(0); }, [&] { t(1); });
  if (ok[0] && ok[1]) sym_reach("both_ok"); if (ok[0] != ok[1]) sym_reach("one_ok");
  // capacity is neither lost nor gained
  std::uint32_t left = max_slots - sum;
  if (active < max_subs && left > 0) { std::uint16_t rest = left > 255 ? 255 : left; sym_assert(c.Subscribe(rest) == SubscribeResult::kSuccess, "capacity is lost"); active++; sum += rest; }
  if (active < max_subs && sum == max_slots) sym_assert(c.Subscribe(1) == SubscribeResult::kSlotOverflow, "sample capacity appears from nowhere");
  if (active == max_subs) sym_assert(c.Subscribe(1) == SubscribeResult::kMaxSubscribersOverflow, "subscriber capacity appears from nowhere");
}
extern "C" void h_log_par() {
  hx::HeapResource res; EventDataControl ctl{1, res}; unsigned logs = 1 + sym_choose(2, "logs"); TransactionLogSet set{static_cast<TransactionLogIndex>(logs), 1, res}; hx::share_logs<TransactionLogSet, ConsumerEventDataControlLocalView<>>(set, logs, 1, ctl); TransactionLogId id[2] = {sym_u32("id"), sym_u32("id")}; sym_assume((id[0] != kInvalidTransactionLogId) & (id[1] != kInvalidTransactionLogId));
  bool in_use[2] = {}; int got = 0;
  auto t = [&](int i) { ConsumerEventDataControlLocalView<> v{ctl};
    auto r = set.RegisterProxyElement(id[i], v);
    if (!r.has_value()) { sym_assert(logs == 1, "registration refused although a transaction log is free"); return; }
    auto k = r.value().GetTransactionLogIndex(); sym_assert(k < logs, "index of the transaction log out of range"); sym_assert(!in_use[k], "a transaction log is given to two users"); in_use[k] = true; got++;
    sym_yield(); sym_assert(in_use[k], "released by someone else"); in_use[k] = false; };
  sym_par(PRE, 0, 0, [&] { t(0); }, [&] { t(1); });
  sym_assert(got >= 1, "nobody obtained a transaction log"); if (got == 2) sym_reach("both"); else sym_reach("one");
  // everything was released
  { ConsumerEventDataControlLocalView<> v1{ctl}, v2{ctl}; auto a = set.RegisterProxyElement(id[0], v1); sym_assert(a.has_value(), "transaction logs leak"); if (logs == 2) { auto b = set.RegisterProxyElement(id[1], v2); sym_assert(b.has_value() && b.value().GetTransactionLogIndex() != a.value().GetTransactionLogIndex(), "transaction logs leak or are shared"); } sym_reach("reuse"); }
}
extern "C" void h_log_three() {
  hx::HeapResource res; EventDataControl ctl{1, res}; TransactionLogSet set{2, 1, res}; hx::share_logs<TransactionLogSet, ConsumerEventDataControlLocalView<>>(set, 2, 1, ctl); bool in_use[2] = {}; int active = 0, fail = 0;
  ConsumerEventDataControlLocalView<> v[3] = {ConsumerEventDataControlLocalView<>{ctl}, ConsumerEventDataControlLocalView<>{ctl}, ConsumerEventDataControlLocalView<>{ctl}}; std::optional<TransactionLogRegistrationGuard> g[3]; TransactionLogId id = sym_u32("id"); sym_assume(id != kInvalidTransactionLogId);
  auto t = [&](int i) { auto r = set.RegisterProxyElement(id, v[i]); if (!r.has_value()) { fail++; return; } auto k = r.value().GetTransactionLogIndex(); sym_assert(k < 2 && !in_use[k], "a transaction log is given to two users"); in_use[k] = true; active++; g[i].emplace(std::move(r).value()); };
  sym_par(PRE, 0, 0, [&] { t(0); }, [&] { t(1); }, [&] { t(2); });
  sym_assert(active == 2 && fail == 1, "three users of two transaction logs: exactly one is refused"); sym_reach("full");
  for (int i = 0; i < 3; i++) if (g[i]) { g[i].reset(); ConsumerEventDataControlLocalView<> w{ctl}; auto r = set.RegisterProxyElement(id, w); sym_assert(r.has_value(), "a released transaction log cannot be used again"); break; }
}
