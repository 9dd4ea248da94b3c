// SOURCES: @mem score/message_passing/client_connection.cpp score/message_passing/timed_command_queue.cpp score/message_passing/non_allocating_future/non_allocating_future.cpp score/message_passing/log/log.cpp score/message_passing/log/log_on_timeout.cpp
// ENTRY: h_cl_history property=C25 reach=replied,lost,stopped,full,bogus quick=150 thorough=900 defs=K=5 tdefs=K=6
// ENTRY: h_cl_many property=C25 reach=done quick=100 thorough=900 defs=PRE=1 tdefs=PRE=2
// ENTRY: h_cl_wait property=C25 reach=reply,error,toolong quick=150 thorough=900 defs=PRE=2 tdefs=PRE=3
// ENTRY: h_cl_fail property=C25 reach=done quick=60 thorough=120
// ENTRY: h_cl_refuse property=C25 reach=thread,size,down quick=60 thorough=120
// ENTRY: h_cl_retry property=C26 reach=connected,again quick=60 thorough=120
// ENTRY: h_cl_stop_race property=C26 reach=done quick=100 thorough=900 defs=PRE=2 tdefs=PRE=4
// ENTRY: h_cl_states property=C26 reach=ready,stopped,restarted quick=150 thorough=900 defs=K=4 tdefs=K=6
// BOUND: 1 queued request and 1 queued send buffer; histories of 5 (6) operations for requests, 4 (6) for states; a blocking request or a stop against the engine thread with 2 (3 to 4) preemptions; messages of up to 3 bytes
// ASSUME: SendWithCallback is given a callback; a connection is not destroyed or restarted from its Stopped callback while its Starting callback runs
// ASSUME: with a synchronous first connection Stop comes from another thread only after Start returned; the clock stands still within an operation
#include "fake_engine.h"
using namespace fe; using CC = detail::ClientConnection; using St = IClientConnection::State; using Sr = IClientConnection::StopReason;
#ifndef K
#define K 4
#endif
#ifndef PRE
#define PRE 2
#endif
static const ServiceProtocolConfig kProto{"s", 2, 3, 3};
static void connect(CC& c, Engine& e) { sym_clock_fixed(1000000000); c.Start(IClientConnection::StateCallback{}, IClientConnection::NotifyCallback{}); e.run_commands(); sym_assert((c.GetState() == St::kReady) & (e.ep != nullptr), "connected"); }
struct Msg { bool accepted{false}, request{false}; std::uint8_t data{0}; int calls{0}; bool ok{false}; int err{0}; std::uint8_t got{0}; std::uint32_t gotn{0}; int frames{0}; };
struct Hist { Msg msg[16]; int n{0}; int seen{0}, requests{0}, replies{0}, last{-1}, last_req{-1}, last_snd{-1}, answered_id[16]{}; bool ordered{false};
  void scan(Engine& e) { for (; seen < e.wires; seen++) { Frame& f = e.wire[seen]; int id = f.b[0]; sym_assert(id < n, "a message that was never sent"); Msg& g = msg[id]; sym_assert((f.n == 2) & (f.b[1] == g.data), "a message reaches the server changed"); sym_assert(f.code == (g.request ? kReq : kSnd), "a message reaches the server as another kind"); sym_assert(g.frames++ == 0, "a message is sent twice");
      if (ordered) { sym_assert(id > last, "messages overtake each other"); last = id; } int& l = g.request ? last_req : last_snd; sym_assert(id > l, "messages of one kind overtake each other"); l = id;
      if (g.request) { answered_id[requests++] = id; sym_assert(requests - replies <= 1, "a second request is sent before the first is answered"); } } } };
static Hist* g_h;
static score::cpp::expected_blank<Err> send(CC& c, bool req, int nested = 0);
static score::cpp::expected_blank<Err> send(CC& c, bool req, int nested) {
  Hist& h = *g_h; int id = h.n++; Msg& g = h.msg[id]; g.request = req; g.data = sym_u8("data"); std::uint8_t b[2] = {static_cast<std::uint8_t>(id), g.data};
  auto r = req ? c.SendWithCallback(Bytes{b, 2}, [id, nested, &c](score::cpp::expected<Bytes, Err> m) { Msg& g = g_h->msg[id]; g.calls++; g.ok = m.has_value(); if (g.ok) { g.gotn = m->size(); if (g.gotn) g.got = m->data()[0]; } else g.err = m.error().GetOsDependentErrorCode(); if (nested) (void)send(c, nested == 2); }) : c.Send(Bytes{b, 2});
  g.accepted = r.has_value(); b[0] = b[1] = 0xEE; return r; }
static constexpr std::uint32_t kCap = 2;
extern "C" void h_cl_history() {
  auto e = std::make_shared<Engine>(); Hist h; g_h = &h; std::uint64_t mode = sym_choose(4, "mode"); bool fo = mode & 1, ta = mode & 2; h.ordered = fo | ta; IClientFactory::ClientConfig cfg{1, 1, fo, ta, false};
  CC c{e, kProto, cfg}; connect(c, *e); bool alive = true, stopping = false;
  auto queued = [&] { std::uint32_t k = 0; for (int i = 0; i < h.n; i++) k += h.msg[i].accepted & !e->tried[i] & (h.msg[i].calls == 0); return k; };
  for (int i = 0; i < K && alive; i++) {
    switch (sym_choose(6, "op")) {
      case 0: { bool req = sym_bool("request"); bool out = h.requests > h.replies; std::uint32_t before = queued(); e->failed = false; e->symbolic_faults = !ta; int w = e->wires; auto r = send(c, req, req ? sym_choose(2, "nested") : 0); e->symbolic_faults = false; bool direct = !(ta || (out && (req || fo)));
          if (stopping) { sym_assert(!r.has_value() && r.error().GetOsDependentErrorCode() == EINVAL, "sending on a stopping connection"); }
          else if (direct) sym_assert((r.has_value() == !e->failed) & (e->wires == w + !e->failed), "direct sending"); else { sym_assert(e->wires == w, "sent out of turn"); if (!r.has_value()) { sym_assert((r.error().GetOsDependentErrorCode() == ENOBUFS) & (before >= kCap), "a message is refused although there is room"); sym_reach("full"); } else sym_assert(before < kCap, "more messages are queued than configured"); } } break;
            case 1: { h.scan(*e); if (h.requests == h.replies || e->ep == nullptr) break; int id = h.answered_id[h.replies++]; std::uint8_t b[3] = {sym_u8("reply"), 0, 0}; std::uint32_t n = 1; sym_assert(h.msg[id].calls == 0, "called back before the reply"); e->input(kRep, b, n); Msg& g = h.msg[id]; sym_assert((g.calls == 1) & g.ok & (g.gotn == n) & ((n == 0) | (g.got == b[0])), "the reply does not reach the request it belongs to"); sym_reach("replied"); } break;
      case 2: { h.scan(*e); if (stopping || h.requests > h.replies || e->ep == nullptr) break; std::uint8_t b[1] = {0}; e->input(kRep, b, 1); sym_assert((c.GetState() == St::kStopped) & (c.GetStopReason() == Sr::kIoError), "a reply nobody asked for is accepted"); sym_reach("bogus"); alive = false; } break;
      case 3: if (stopping || e->ep == nullptr) break; { int er = sym_choose(2, "error") ? EPIPE : EIO; e->input_error(er); sym_assert((c.GetState() == St::kStopped) & (c.GetStopReason() == (er == EPIPE ? Sr::kClosedByPeer : Sr::kIoError)), "lost connection"); sym_reach("lost"); alive = false; } break;
      case 4: if (stopping) break; c.Stop(); stopping = true; sym_assert((c.GetState() == St::kStopping) & (c.GetStopReason() == Sr::kUserRequested), "stop"); sym_reach("stopped"); break;
      default: e->symbolic_faults = true; e->run_commands(); e->symbolic_faults = false; if (stopping) alive = false; break;
    }
    h.scan(*e);
    sym_assert(queued() <= kCap, "queue length");
    for (int j = 0; j < h.n; j++) { Msg& g = h.msg[j]; sym_assert((g.calls <= 1) & ((g.calls == 0) | (g.accepted & g.request)), "a callback runs twice or for a refused message"); }
  }
  if (alive) { if (!stopping) c.Stop(); e->run_commands(); h.scan(*e); }
  sym_assert((c.GetState() == St::kStopped) & (e->open_fd == -1) & (e->closes == e->opens) & (e->ep == nullptr), "everything is released when stopped");
  for (int j = 0; j < h.n; j++) { Msg& g = h.msg[j]; sym_assert(g.calls == (g.accepted & g.request), "a request's callback never runs, or runs although the request was refused"); }
  { std::uint8_t b[2]{}; auto r = c.Send(Bytes{b, 2}); sym_assert(!r.has_value() && r.error().GetOsDependentErrorCode() == EINVAL, "sending on a stopped connection"); }
  // after a restart the whole queue is there again
  c.Restart(); e->run_commands(); sym_assert(c.GetState() == St::kReady, "restart"); int w = e->wires; bool fresh = !ta; if (fresh) sym_assert(send(c, true).has_value(), "first request"); 
  for (std::uint32_t i = 0; i < kCap; i++) sym_assert(send(c, true).has_value(), "the queue is smaller after a restart"); sym_assert(!send(c, true).has_value(), "the queue is larger after a restart"); sym_assert(e->wires == w + fresh, "restart");
  e->on_thread = true; c.Stop(); sym_assert(c.GetState() == St::kStopped, "stop on the engine thread is immediate"); for (int j = 0; j < h.n; j++) { Msg& g = h.msg[j]; sym_assert(g.calls == (g.accepted & g.request), "a request's callback never runs"); }
}
// a blocking request on a user thread, replies or loss of the connection on the engine thread
extern "C" void h_cl_wait() {
  auto e = std::make_shared<Engine>(); bool ta = sym_choose(2, "truly async"); IClientFactory::ClientConfig cfg{1, 1, false, ta, false}; CC c{e, kProto, cfg}; connect(c, *e); 
  bool first = sym_choose(2, "another request first"); int calls = 0; if (first) { std::uint8_t b[2] = {9, 9}; sym_assert(c.SendWithCallback(Bytes{b, 2}, [&](auto) { calls++; }).has_value(), "first"); }
  std::uint8_t d = sym_u8("data"), rp = sym_u8("reply"); std::uint32_t rn = sym_choose(3, "reply size"); int fate = sym_choose(3, "fate"); bool done = false, failed = false; int err = 0;
  e->threaded = true; e->engine_thread = 2;
  sym_par(PRE, 0, 0,
    [&] { std::uint8_t b[2] = {1, d}; std::uint8_t buf[1] = {0xAA}; auto r = c.SendWaitReply(Bytes{b, 2}, span<std::uint8_t>{buf, 1}); b[1] = 0;
      if (r.has_value()) { sym_assert((r->data() == buf) & (r->size() == rn) & ((rn == 0) | (buf[0] == rp)), "a blocking request returns another reply"); sym_reach("reply"); } else { failed = true; err = r.error().GetOsDependentErrorCode(); if (err == EMSGSIZE) { sym_assert(rn > 1, "reply too long"); sym_reach("toolong"); } else { sym_assert(fate != 0, "a request fails for no reason"); sym_reach("error"); } }
      { std::lock_guard l{e->m}; done = true; e->cv.notify_all(); } },
    [&] { int served = 0; bool lost = false;
      for (int step = 0; step < 6; step++) {
        (void)e->q.ProcessQueue(ISharedResourceEngine::TimePoint{});
        if (!lost && fate != 0 && (fate == 1 || e->wires > 0)) { lost = true; e->peer_gone = true; if (e->ep) { e->rx_err = EPIPE; e->ep->input(); } }
        while (!lost && e->ep && served < e->wires) { Frame& f = e->wire[served++]; sym_assert(f.code == kReq, "kind"); bool mine = f.b[0] == 1; if (mine) sym_assert(f.b[1] == d, "request"); e->rx_err = 0; e->rx_code = kRep; e->rx_n = mine ? rn : 0; e->rx[0] = rp; e->rx[1] = 0; e->ep->input(); }
        std::unique_lock l{e->m}; if (done) break; if (!e->wake && (lost || served == e->wires)) e->cv.wait(l, [&] { return done || e->wake || (!lost && served < e->wires); }); e->wake = false; if (done) break; } });
  e->threaded = false; e->on_thread = true; e->run_commands(); c.Stop(); sym_assert((c.GetState() == St::kStopped) & (e->open_fd == -1), "stopped");
  sym_assert(done, "a blocking request never returns"); sym_assert(calls == first, "a request's callback never runs, or runs twice");
}
// the direct sending of a blocking request fails while others queue up behind it
static CC* g_c; static int g_step;
extern "C" void h_cl_fail() {
  auto e = std::make_shared<Engine>(); Hist h; g_h = &h; bool fo = sym_choose(2, "fully ordered"), ta = sym_choose(2, "truly async"); IClientFactory::ClientConfig cfg{1, 1, fo, ta, false}; CC c{e, kProto, cfg}; connect(c, *e); g_c = &c; h.ordered = fo | ta; g_step = sym_choose(4, "others");
  Msg& g = h.msg[h.n++]; g.request = true; g.data = 7; // message 0 is the blocking request
  e->on_send = [](Engine& e) { e.on_send = nullptr; if (g_step & 1) (void)send(*g_c, false); if (g_step & 2) (void)send(*g_c, true); }; e->send_err = EAGAIN;
  std::uint8_t b[2] = {0, 7}, buf[2]; 
  if (!fo && !ta) g_step &= 2; auto r = c.SendWaitReply(Bytes{b, 2}, span<std::uint8_t>{buf, 2}); sym_assert(!r.has_value() && r.error().GetOsDependentErrorCode() == EAGAIN, "the failure is not reported"); e->send_err = 0;
  e->run_commands(); h.scan(*e); int n = (g_step & 1) + (g_step >> 1); sym_assert((e->wires == n) & (h.n == n + 1), "messages that queued up behind a failed request are stuck");
  if (g_step & 2) { std::uint8_t z = 1; e->input(kRep, &z, 1); h.replies++; sym_assert(h.msg[n].calls == 1, "the reply does not reach the request it belongs to"); }
  sym_assert(send(c, true).has_value(), "the connection is stuck after a failed request"); e->run_commands(); h.scan(*e); sym_assert(e->wires == n + 1, "the connection is stuck after a failed request");
  e->on_thread = true; c.Stop(); sym_reach("done");
}
// refused calls
extern "C" void h_cl_refuse() {
  auto e = std::make_shared<Engine>(); IClientFactory::ClientConfig cfg{1, 1, sym_bool("fo"), sym_bool("ta"), false}; std::uint32_t max = sym_u32("max send size"); sym_assume(max <= 4); ServiceProtocolConfig pc{"s", 4, 3, 3}; pc.max_send_size = sym_concretize(max); CC c{e, pc, cfg}; static std::uint8_t b[6]; std::uint8_t buf[4]; std::uint32_t n = sym_choose(7, "size"); bool up = sym_choose(2, "connected"); if (up) connect(c, *e); e->on_thread = sym_choose(2, "on the engine thread"); int calls = 0; e->send_err = EIO;
  int k = sym_choose(3, "call"); int err = 0; switch (k) { case 0: { auto r = c.Send(Bytes{b, n}); if (!r.has_value()) err = r.error().GetOsDependentErrorCode(); } break; case 1: { auto r = c.SendWithCallback(Bytes{b, n}, [&](auto) { calls++; }); if (!r.has_value()) err = r.error().GetOsDependentErrorCode(); } break; default: if (up && n <= max && !e->on_thread) { e->on_thread = false; } { auto r = c.SendWaitReply(Bytes{b, n}, span<std::uint8_t>{buf, 4}); if (!r.has_value()) err = r.error().GetOsDependentErrorCode(); else err = -1; } }
  if (k == 2 && e->on_thread) { sym_assert(err == EAGAIN, "a blocking request on the engine thread"); sym_reach("thread"); } else if (n > pc.max_send_size) { sym_assert(err == EMSGSIZE, "too large a message is accepted"); sym_reach("size"); } else if (!up) { sym_assert(err == EINVAL, "a message is accepted without a connection"); sym_reach("down"); } else { bool queued = k != 2 && cfg.truly_async; sym_assert(err == (queued ? 0 : EIO), "the result of sending"); }
  sym_assert((e->wires == 0) & (calls == 0), "a refused message"); e->on_thread = true; c.Stop();
}
// connection states
struct Stt { St last{St::kStopped}; int n{0}, restarts{0}, opens{0}; bool starting_stops{false}, ready_stops{false}, in_ready{false}; int seen[4]{}; };
static Stt* g_s; static bool g_stop_in_open;
extern "C" void h_cl_states() {
  sym_clock_fixed(1000000000); auto e = std::make_shared<Engine>(); Stt s; g_s = &s; IClientFactory::ClientConfig cfg{1, 1, false, false, static_cast<bool>(sym_choose(2, "sync"))}; CC c{e, kProto, cfg}; g_c = &c; s.starting_stops = sym_choose(2, "stop in starting"); s.ready_stops = sym_choose(2, "stop in ready"); int restarts = sym_choose(2, "restart in stopped"); g_stop_in_open = sym_choose(2, "stop while connecting");
  int oerr = 0; if (sym_choose(2, "cannot connect")) oerr = sym_range(1, 133, "errno"); e->open_err = oerr;
  bool user_stop = false;
  e->on_open = [](Engine& e) { if (g_stop_in_open) { g_stop_in_open = false; bool o = e.on_thread; e.on_thread = false; g_c->Stop(); e.on_thread = o; } };
  auto cb = [&](St t) { s.n++; s.seen[static_cast<int>(t)]++; sym_assert(c.GetState() == t, "the state callback announces another state"); bool ok = t == St::kStarting ? s.last == St::kStopped : t == St::kReady ? s.last == St::kStarting : t == St::kStopping ? (s.last == St::kStarting) | (s.last == St::kReady) : s.last == St::kStopping; sym_assert(ok, "a state follows another one it must not follow"); s.last = t;
    if (t == St::kReady) sym_assert(e->open_fd != -1, "ready without a connection"); if (t >= St::kStopping) sym_assert(c.GetStopReason() != Sr::kNone, "stopped without a reason"); if (t == St::kStopped) sym_assert((e->open_fd == -1) & (e->ep == nullptr), "stopped with an open connection");
    if (t == St::kStarting && s.starting_stops) { s.starting_stops = false; user_stop = true; c.Stop(); } else if (t == St::kReady && s.ready_stops) { s.ready_stops = false; user_stop = true; c.Stop(); } else if (t == St::kStopped && s.restarts < restarts) { s.restarts++; sym_reach("restarted"); c.Restart(); } };
  c.Start(cb, IClientConnection::NotifyCallback{});
  for (int i = 0; i < K; i++) switch (sym_choose(5, "op")) {
    case 0: e->run_commands(); break; case 1: e->open_err = sym_choose(2, "then") ? 0 : oerr; e->run_timers(); break; case 2: user_stop = true; c.Stop(); break; case 3: { St b = c.GetState(); if (e->input_error(EPIPE)) { bool again = s.restarts > 0; if (b == St::kReady) sym_assert(again | (c.GetStopReason() == Sr::kClosedByPeer), "reason"); } } break;
    default: c.Restart(); }
  if (s.seen[1]) sym_reach("ready");
  if (c.GetState() == St::kReady) { if (cfg.sync_first_connect) e->run_commands(); sym_assert((e->open_fd != -1) & (e->ep != nullptr), "ready without a connection"); }
  if (c.GetState() == St::kStopped && !user_stop && s.restarts == 0 && s.seen[0] == 1 && s.seen[1] == 0 && oerr != 0 && !g_stop_in_open) sym_assert((c.GetStopReason() == Sr::kUserRequested) | (c.GetStopReason() == (oerr == EACCES ? Sr::kPermission : Sr::kIoError)), "reason for the failed connection");
  restarts = 0; c.Stop(); e->run_commands(); sym_assert(c.GetState() == St::kStopped, "a stopped connection does not reach the stopped state"); sym_reach("stopped"); int n = s.n;
  e->open_err = 0; e->run_timers(); sym_assert((s.n == n) & (c.GetState() == St::kStopped) & (e->open_fd == -1) & (e->opens == e->closes), "a stopped connection comes back to life");
}
// waiting for a server that is not there yet
extern "C" void h_cl_retry() {
  std::int64_t base = 1000000000; sym_clock_fixed(base); auto e = std::make_shared<Engine>(); IClientFactory::ClientConfig cfg{1, 1, false, false, static_cast<bool>(sym_choose(2, "sync"))}; CC c{e, kProto, cfg}; e->open_err = sym_range(1, 133, "errno"); sym_assume((e->open_err == EAGAIN) | (e->open_err == ECONNREFUSED) | (e->open_err == ENOENT)); int n = 1 + sym_choose(40, "attempts"); std::int64_t last = 0, first = 0, now = base; e->now = base;
  c.Start(IClientConnection::StateCallback{}, IClientConnection::NotifyCallback{}); if (!cfg.sync_first_connect) e->run_commands();
  for (int i = 0; i < n; i++) { std::int64_t t = e->last_until.time_since_epoch().count(), d = t - now; sym_assert((d >= 1000000) & (d <= 5000000000LL) & (d >= last), "retry delay"); last = d; if (i == 0) first = d; int q = e->enq; sym_assert((c.GetState() == St::kStarting), "gives up"); e->run_commands(ISharedResourceEngine::TimePoint{std::chrono::nanoseconds{t - 1}}); sym_assert(e->enq == q, "retried too early"); if (i == n - 1) break; now = t; e->run_timers(); sym_assert(e->enq == q + 1, "one retry at a time"); }
  if (sym_choose(2, "then")) { e->open_err = 0; e->run_timers(); sym_assert((c.GetState() == St::kReady) & (e->ep != nullptr), "connected at last"); sym_reach("connected"); e->on_thread = true; c.Stop(); }
  else { c.Stop(); e->run_commands(); sym_assert(c.GetState() == St::kStopped, "stopped while retrying"); int o = e->enq; e->run_timers(); sym_assert((e->enq == o) & (e->opens == 0), "still retrying after being stopped"); now = e->now; c.Restart(); if (!cfg.sync_first_connect) e->run_commands(); sym_assert(e->last_until.time_since_epoch().count() - now == first, "a restart starts over"); e->on_thread = true; c.Stop(); sym_reach("again"); }
}
// Stop() on a user thread while the engine thread connects or loses the connection
extern "C" void h_cl_stop_race() {
  sym_clock_fixed(1000000000); auto e = std::make_shared<Engine>(); IClientFactory::ClientConfig cfg{1, 1, false, false, false}; CC c{e, kProto, cfg}; e->open_err = sym_range(0, 133, "errno"); bool lose = sym_choose(2, "peer closes"); int stopped = 0, stopping = 0; bool after = false;
  c.Start([&](St t) { if (t == St::kStopping) stopping++; if (t == St::kStopped) stopped++; sym_assert(stopped <= 1 && stopping <= 1, "stopped twice"); if (stopped && t != St::kStopped) after = true; }, IClientConnection::NotifyCallback{}); e->threaded = true; e->engine_thread = 2;
  sym_par(PRE, 0, 0, [&] { if (sym_choose(2, "late")) sym_yield(); c.Stop(); },
    [&] { (void)e->q.ProcessQueue(ISharedResourceEngine::TimePoint{}); sym_yield(); if (lose && e->ep) { e->rx_err = EPIPE; e->ep->input(); } (void)e->q.ProcessQueue(ISharedResourceEngine::TimePoint{}); });
  e->threaded = false; e->run_commands(); sym_assert((c.GetState() == St::kStopped) & (stopped == 1) & (stopping == 1) & !after, "a connection that was stopped does not reach the stopped state"); sym_assert((e->open_fd == -1) & (e->opens == e->closes) & (e->ep == nullptr), "a stopped connection is still open"); int q = e->enq; e->run_timers(); sym_assert((e->enq == q) & (c.GetState() == St::kStopped), "a stopped connection comes back to life"); sym_reach("done");
}
// two users and the engine thread
extern "C" void h_cl_many() {
  auto e = std::make_shared<Engine>(); bool fo = sym_choose(2, "fully ordered"), ta = sym_choose(2, "truly async"); IClientFactory::ClientConfig cfg{2, 1, fo, ta, false}; CC c{e, kProto, cfg}; connect(c, *e); int calls[3]{}; bool ok[3]{}; std::uint8_t d = sym_u8("data"); bool fin[2]{}; int fate = sym_choose(2, "peer closes"); bool acc[3]{}; int got[3]{};
  auto req = [&](int id) { std::uint8_t b[2] = {static_cast<std::uint8_t>(id), static_cast<std::uint8_t>(d + id)}; acc[id] = c.SendWithCallback(Bytes{b, 2}, [&, id](score::cpp::expected<Bytes, Err> m) { calls[id]++; ok[id] = m.has_value(); if (ok[id]) got[id] = m->data()[0]; }).has_value(); };
  auto end = [&](int t) { std::lock_guard l{e->m}; fin[t] = true; e->cv.notify_all(); };
  e->threaded = true; e->engine_thread = 3; int served = 0;
  sym_par(PRE, 0, 0, [&] { req(0); req(1); end(0); }, [&] { req(2); end(1); },
    [&] { for (int step = 0; step < 8; step++) { (void)e->q.ProcessQueue(ISharedResourceEngine::TimePoint{}); if (fate && e->wires > 0 && e->ep) { e->peer_gone = true; e->rx_err = EPIPE; e->ep->input(); }
        while (e->ep && served < e->wires) { Frame& f = e->wire[served++]; e->rx_err = 0; e->rx_code = kRep; e->rx_n = 1; e->rx[0] = f.b[0] + 100; e->ep->input(); }
        std::unique_lock l{e->m}; if (fin[0] & fin[1]) break; if (!e->wake && (!e->ep || served == e->wires)) e->cv.wait(l, [&] { return (fin[0] & fin[1]) || e->wake || (e->ep && served < e->wires); }); e->wake = false; } });
  e->threaded = false; for (int i = 0; i < 4; i++) { e->run_commands(); while (e->ep && served < e->wires) { std::uint8_t r = e->wire[served++].b[0] + 100; e->input(kRep, &r, 1); } }
  e->on_thread = true; c.Stop(); sym_assert((c.GetState() == St::kStopped) & (e->open_fd == -1), "stopped"); int last = -1; bool sent[3]{};
  for (int i = 0; i < e->wires; i++) { Frame& f = e->wire[i]; int id = f.b[0]; sym_assert((f.code == kReq) & (id < 3) & (f.n == 2), "frame"); sym_assert(f.b[1] == static_cast<std::uint8_t>(d + id), "a message reaches the server changed"); sym_assert(!sent[id], "a message is sent twice"); sent[id] = true; if (id < 2) { sym_assert(id > last, "messages of one thread overtake each other"); last = id; } }
  for (int i = 0; i < 3; i++) { sym_assert(calls[i] == acc[i], "a request's callback never runs, or runs although the request was refused"); if (!fate) sym_assert(acc[i] & ok[i] & (got[i] == 100 + i), "a request fails for no reason, or gets another one's reply"); } sym_reach("done");
}
