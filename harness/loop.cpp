// SOURCES: @mem score/message_passing/unix_domain/unix_domain_engine.cpp score/message_passing/timed_command_queue.cpp score/message_passing/log/log.cpp
// ENTRY: h_tq_history property=C29 reach=ran,again,cleaned quick=150 thorough=900 defs=K=4 tdefs=K=5
// ENTRY: h_tq_threads property=C29 reach=done quick=100 thorough=900 defs=PRE=3 tdefs=PRE=5
// ENTRY: h_loop_timeout property=C29 reach=never,later,late quick=60 thorough=120
// ENTRY: h_loop_timeout_any property=C29 reach=any quick=100 thorough=400 defs=LIM=64000000ull tdefs=LIM=200000000ull
// ENTRY: h_loop_endpoints property=C29 reach=input,unregistered,added,cleaned quick=100 thorough=900 defs=K=2 tdefs=K=3
// ENTRY: h_loop_cleanup property=C29 reach=mine,other quick=60 thorough=120
// BOUND: 3 commands, 4 (5) steps, times below 2^62; 3 threads with 3 (5) preemptions; delays and durations of up to 64 (200) ms symbolically and stated long ones; 4 endpoints over 2 (3) rounds
// ASSUME: time does not pass within the engine's own code, only in callbacks and while it sleeps
#include "fake_net.h"
#include <condition_variable>
#include <mutex>
using namespace fn; using TQ = detail::TimedCommandQueue; using TP = TQ::TimePoint;
#ifndef K
#define K 4
#endif
#ifndef LIM
#define LIM 16000000ull
#endif
#ifndef PRE
#define PRE 3
#endif
static auto* mr() { return score::cpp::pmr::get_default_resource(); }
static TP at(std::uint64_t t) { return TP{std::chrono::nanoseconds{static_cast<std::int64_t>(t)}}; }
constexpr int kE = 3;
struct Q { TQ q; TQ::Entry e[kE]; struct M { bool queued{false}; std::uint64_t until{0}; int seq{0}; int owner{0}; int act{0}; } m[kE]; int seq{0}; bool processing{false}; std::uint64_t now{0}; int owners[3]; int ran{0}; };
static Q* q;
static void add(int i, std::uint64_t t, int owner, int act);
static void cleanup(int o) { q->q.CleanUpOwner(&q->owners[o]); for (auto& m : q->m) if (m.owner == o) m.queued = false; }
static void ran(int i, TP now) {
  auto& m = q->m[i]; sym_assert(q->processing & m.queued, "a command is executed that is not queued"); sym_assert((now == at(q->now)) & (m.until <= q->now), "a command is executed too early");
  for (int j = 0; j < kE; j++) if (j != i && q->m[j].queued) sym_assert((m.until < q->m[j].until) | ((m.until == q->m[j].until) & (m.seq < q->m[j].seq)), "commands are executed out of order");
  m.queued = false; q->ran++; sym_reach("ran"); int act = m.act; m.act = 0;
  if (act == 1) { add(i, sym_u64("again"), m.owner, 0); sym_reach("again"); } else if (act == 2) { cleanup(1 - m.owner); }
}
static void add(int i, std::uint64_t t, int owner, int act) { auto& m = q->m[i]; sym_assume(t < (1ull << 62)); m.queued = true; m.until = t; m.seq = q->seq++; m.owner = owner; m.act = act; q->q.RegisterTimedEntry(q->e[i], at(t), [i](TP now) noexcept { ran(i, now); }, &q->owners[owner]); }
extern "C" void h_tq_history() {
  Q w; q = &w;
  for (int k = 0; k < K; k++) switch (sym_choose(3, "op")) {
    case 0: { int i = 0; while (i < kE && w.m[i].queued) i++; if (i == kE) sym_assume(false); add(i, sym_u64("until"), sym_choose(2, "owner"), sym_choose(3, "act")); } break;
    case 1: { w.now = sym_u64("now"); sym_assume(w.now < (1ull << 62)); w.processing = true; TP r = w.q.ProcessQueue(at(w.now)); w.processing = false; std::uint64_t t = r.time_since_epoch().count(); bool any = false, is = false; for (auto& m : w.m) if (m.queued) { sym_assert(m.until > w.now, "a command that is due is not executed"); sym_assert(t <= m.until, "the next command is due earlier than reported"); is |= m.until == t; any = true; } if (any) sym_assert(is, "a time is reported at which nothing is due"); else sym_assert(t == 0, "a time is reported although nothing is queued"); } break;
    default: cleanup(sym_choose(2, "cleanup")); sym_reach("cleaned"); }
}
extern "C" void h_tq_threads() { // registrations and clean-ups of other threads while the engine thread works
  TQ tq; TQ::Entry e[3]; int runs[3]{}; int own[2]; bool cleaned = false, bad = false; TP t0 = at(5);
  sym_par(PRE, 0, 0, [&] { for (int i = 0; i < 2; i++) (void)tq.ProcessQueue(at(10)); }, [&] { tq.RegisterTimedEntry(e[0], t0, [&](TP) noexcept { runs[0]++; }, &own[0]); tq.RegisterTimedEntry(e[1], TP{}, [&](TP) noexcept { runs[1]++; }, &own[1]); }, [&] { tq.RegisterTimedEntry(e[2], t0, [&](TP) noexcept { runs[2]++; bad |= cleaned; }, &own[0]); });
  (void)tq.ProcessQueue(at(10)); sym_assert((runs[0] == 1) & (runs[1] == 1) & (runs[2] == 1) & !bad, "a command is lost or executed twice"); sym_reach("done");
}
static bool g_queued[2]; static std::uint64_t g_due[2], g_now, g_take;
static void timer(int i) { g_queued[i] = false; sym_assert(g_now >= g_due[i], "a command is executed too early"); if (i == 0) { g_now += g_take; sym_clock_fixed(g_now); } }
extern "C" void h_loop_timeout() { // the engine thread is never asleep when a command becomes due, however long callbacks take
  Net n; install(n); g_now = 1000000000; sym_clock_fixed(g_now); UnixDomainEngine e{mr(), {}}; static const std::uint64_t kDelay[] = {1, 999999, 1000000, 2500000, 60000000000ull, 2147483646000000ull, 2147483647000000ull, 3000000000000000ull, 1ull << 61}; static const std::uint64_t kTake[] = {0, 1, 1000000, 2999999, 5000000000ull};
  ISharedResourceEngine::CommandQueueEntry c[2]; int d = sym_choose(10, "delay"); g_take = kTake[sym_choose(5, "take")]; g_queued[0] = true; g_due[0] = g_now + 500000; g_queued[1] = d < 9;
  if (d < 9) { g_due[1] = g_now + kDelay[d]; e.EnqueueCommand(c[1], at(g_due[1]), [](TP) noexcept { timer(1); }, nullptr); }
  e.EnqueueCommand(c[0], at(g_due[0]), [](TP) noexcept { timer(0); }, nullptr);
  n.on_poll = [](pollfd* p, nfds_t k, int timeout) { if (ready(p, k) > 0) return; if (!g_queued[0] & !g_queued[1]) { sym_assert(timeout < 0, "wakes up for nothing"); sym_reach("never"); quit(); return; }
    std::uint64_t due = !g_queued[1] || (g_queued[0] && g_due[0] < g_due[1]) ? g_due[0] : g_due[1]; sym_assert(timeout >= 0, "the engine thread sleeps although a command is queued"); std::uint64_t left = due > g_now ? due - g_now : 0; std::uint64_t ms = left / 1000000 + 1; sym_assert(static_cast<std::uint64_t>(timeout) <= ms, "the engine thread sleeps beyond the time a command is due"); if (left == 0) sym_reach("late"); if (timeout == INT32_MAX) { sym_reach("later"); quit(); return; } sym_assert((timeout > 0) | (left == 0), "the engine thread spins"); g_now += static_cast<std::uint64_t>(timeout) * 1000000; sym_clock_fixed(g_now); };
  g_run(g_state);
}
static std::uint64_t g_delay;
extern "C" void h_loop_timeout_any() { // one round with any delay and any duration
  Net n; install(n); g_now = 1000000000; sym_clock_fixed(g_now); UnixDomainEngine e{mr(), {}}; ISharedResourceEngine::CommandQueueEntry c[2]; g_delay = sym_range(1, LIM, "delay"); g_take = sym_range(0, LIM, "take"); e.EnqueueCommand(c[0], TP{}, [](TP) noexcept { sym_clock_fixed(g_now + g_take); }, nullptr); e.EnqueueCommand(c[1], at(g_now + g_delay), [](TP) noexcept {}, nullptr); g->pipe_n = 0;
  n.on_poll = [](pollfd* p, nfds_t k, int timeout) { if (ready(p, k) > 0) return; std::int64_t left = static_cast<std::int64_t>(g_delay) - static_cast<std::int64_t>(g_take); sym_assert(timeout >= 0, "the engine thread sleeps although a command is queued"); if (left > 0) sym_assert(static_cast<std::int64_t>(timeout) * 1000000 <= left + 1000000, "the engine thread sleeps beyond the time a command is due"); sym_reach("any"); quit(); };
  g_run(g_state);
}
constexpr int kP = 4;
struct Ep { ISharedResourceEngine::PosixEndpointEntry ep; int owner{0}; bool reg{false}, rdy{false}; int act{0}; int inputs{0}, gone{0}, round{-1}; };
struct L { Ep p[kP]; int owners[2]; UnixDomainEngine* e; int round{0}; ISharedResourceEngine::CommandQueueEntry c; };
static L* l;
static void reg(int i, int owner);
static void unreg(int i) { auto& p = l->p[i]; if (p.reg) { int b = p.gone; p.reg = false; l->e->UnregisterPosixEndpoint(p.ep); sym_assert(p.gone == b + 1, "an unregistration is not reported exactly once"); sym_reach("unregistered"); } else { int b = p.gone; l->e->UnregisterPosixEndpoint(p.ep); sym_assert(p.gone == b, "an unregistration is reported twice"); } }
static void clean(int o) { int b[kP]; for (int i = 0; i < kP; i++) { b[i] = l->p[i].gone + (l->p[i].reg & (l->p[i].owner == o)); if (l->p[i].owner == o) l->p[i].reg = false; } l->e->CleanUpOwner(&l->owners[o]); for (int i = 0; i < kP; i++) sym_assert(l->p[i].gone == b[i], "clean-up does not end exactly what belongs to the owner"); sym_reach("cleaned"); }
static void input(int i) { auto& p = l->p[i]; sym_assert(p.reg, "input for an endpoint that is not registered"); sym_assert(p.rdy, "input for an endpoint that is not readable"); sym_assert(p.round != l->round, "input twice in a round"); p.round = l->round; p.inputs++; p.rdy = false; int a = p.act; p.act = 0; sym_reach("input");
  switch (a) { case 1: unreg(i); break; case 2: unreg((i + 1) % 3); break; case 3: if (!l->p[3].reg) { reg(3, 0); sym_reach("added"); } break; case 4: unreg(i); if (!l->p[3].reg) reg(3, 1); break; case 5: clean(0); break; default: break; } }
static void reg(int i, int owner) { auto& p = l->p[i]; p.owner = owner; p.reg = true; p.ep.owner = &l->owners[owner]; p.ep.fd = kFirst + i; p.ep.max_receive_size = 4; p.ep.input = [i]() noexcept { input(i); }; p.ep.disconnect = [i]() noexcept { sym_assert(!l->p[i].reg, "disconnected for no reason"); l->p[i].gone++; l->p[i].rdy = false; }; g->s[kFirst + i].open = true; l->e->RegisterPosixEndpoint(p.ep); }
static int g_step2;
extern "C" void h_loop_endpoints() {
  Net n; install(n); L w; l = &w; sym_clock_fixed(1000000000); UnixDomainEngine e{mr(), {}}; w.e = &e; g_step2 = 0;
  e.EnqueueCommand(w.c, {}, [](TP) noexcept { reg(0, 0); reg(1, sym_choose(2, "owner")); reg(2, 1); }, nullptr);
  n.on_poll = [](pollfd* p, nfds_t k, int) { for (int i = 0; i < kP; i++) g->s[kFirst + i].in.eof = false; if (ready(p, k) > 0) return;
    for (int i = 0; i < kP; i++) if (l->p[i].reg) sym_assert(!l->p[i].rdy, "readable and no input");
    if (g_step2++ == K) { quit(); return; } l->round++; bool any = false; for (int i = 0; i < kP; i++) { auto& q = l->p[i]; q.rdy = q.reg && sym_bool("readable"); q.act = 0; any |= q.rdy; if (q.rdy) { q.act = sym_choose(6, "act"); g->s[kFirst + i].in.eof = true; } } if (!any) sym_assume(false); };
  g_run(g_state);
}
static ISharedResourceEngine::CommandQueueEntry g_cmd[4]; static int g_owner[2], g_cleaned, g_ran[3], g_who[3];
extern "C" void h_loop_cleanup() { // cleaning up an owner ends its commands, and only its own
  Net n; install(n); g_now = 1000000000; sym_clock_fixed(g_now); UnixDomainEngine e{mr(), {}}; static UnixDomainEngine* eng; eng = &e; g_cleaned = -1; static std::uint64_t due[3];
  for (int i = 0; i < 3; i++) { g_ran[i] = 0; g_who[i] = sym_choose(3, "owner"); due[i] = g_now + 1000000 * (1 + sym_choose(2, "due")); e.EnqueueCommand(g_cmd[i], at(due[i]), [i](TP) noexcept { sym_assert(g_now >= due[i], "a command is executed too early"); sym_assert(g_who[i] == 2 || g_who[i] != g_cleaned, "a command is executed after its owner was cleaned up"); g_ran[i]++; }, g_who[i] == 2 ? nullptr : &g_owner[g_who[i]]); }
  e.EnqueueCommand(g_cmd[3], at(g_now + 1000000 * sym_choose(2, "clean-up")), [](TP) noexcept { g_cleaned = sym_choose(2, "cleaned"); eng->CleanUpOwner(&g_owner[g_cleaned]); }, nullptr);
  n.on_poll = [](pollfd* p, nfds_t k, int timeout) { if (ready(p, k) > 0) return; if (timeout < 0) { quit(); return; } g_now += static_cast<std::uint64_t>(timeout) * 1000000; sym_clock_fixed(g_now); };
  g_run(g_state); for (int i = 0; i < 3; i++) { sym_assert(g_ran[i] <= 1, "a command is executed twice"); if (g_who[i] != g_cleaned) { sym_assert(g_ran[i] == 1, "a command of another owner is lost"); sym_reach("other"); } else sym_reach("mine"); }
}
