// SOURCES: @mem score/message_passing/unix_domain/unix_domain_engine.cpp score/message_passing/unix_domain/unix_domain_server.cpp score/message_passing/timed_command_queue.cpp score/message_passing/log/log.cpp
// ENTRY: h_srv_history property=C28 reach=rejected,accept_failed,request,send,bogus,toolong,verdict,cut,stopped,restarted quick=200 thorough=900 defs=K=4 tdefs=K=5
// ENTRY: h_srv_many property=C28 reach=two quick=100 thorough=900 defs=K=5 tdefs=K=7
// ENTRY: h_srv_bare property=C28 reach=message,gone,handled quick=60 thorough=120
// ENTRY: h_srv_stop_thread property=C28 reach=connected,served,missed quick=100 thorough=900 defs=PRE=3 tdefs=PRE=4
// ENTRY: h_srv_start property=C28 reach=failed,started quick=60 thorough=120
// BOUND: histories of 4 (5) steps with messages of up to 3 bytes (limits: 2 sent, 2 replied, 1 notified); 5 (7) steps with two or more clients; a stop against the engine thread with 3 (4) preemptions
// ASSUME: RequestDisconnect() is not used (not implemented for QNX, on Linux only on the callback thread); Reply() and Notify() only on established connections; the OS behaves as in C27
#include "fake_net.h"
#include <condition_variable>
#include <future>
#include <mutex>
#include <optional>
using namespace fn; using SC = score::message_passing::IServerConnection; using detail::UnixDomainServer; using HP = score::cpp::pmr::unique_ptr<IConnectionHandler>;
#ifndef K
#define K 3
#endif
#ifndef PRE
#define PRE 2
#endif
static auto* mr() { return score::cpp::pmr::get_default_resource(); }
constexpr int kMaxSend = 2, kMaxReply = 2, kMaxNotify = 1;
static const ServiceProtocolConfig kProto{"srv", kMaxSend, kMaxReply, kMaxNotify};
struct Con { int fd{-1}; bool accepted{false}, handler{false}, alive{false}; SC* c{nullptr}; int disconnects{0}, deleted{0}; int calls{0}; bool last_req{false}; std::uint32_t n{0}; std::uint8_t b[4]{}; };
struct World { int mask{7}; Con con[8]; int n{0}; int kind{0}; bool verdict_ok{true}; int reply{-1}; std::uint8_t rb[4]; bool listening{false}; UnixDomainServer* srv{nullptr}; UnixDomainEngine* e{nullptr}; bool bare{false}; };
static World* w;
static void same_id(SC& c, int fd) { const auto& i = c.GetClientIdentity(); sym_assert((i.pid == g->cred[fd].pid) & (i.uid == g->cred[fd].uid) & (i.gid == g->cred[fd].gid), "the identity of another client"); }
static void check_frame(int fd, int at, std::uint8_t code, const std::uint8_t* b, int n) { Stream& o = g->s[fd].out; bool eq = (o.tail == at + 3 + n) & (o.b[at] == code) & (o.b[at + 1] == n) & (o.b[at + 2] == 0); sym_assert(eq, "another frame reaches the client"); for (int i = 0; i < n; i++) eq &= o.b[at + 3 + i] == b[i]; sym_assert(eq, "what the client gets differs from what was sent"); }
static void send_from(Con& k, bool reply, int n) { std::uint8_t b[4]; sym_make(b, 4, "answer"); int at[kFds]; for (int i = 0; i < kFds; i++) at[i] = g->s[i].out.tail; auto r = reply ? k.c->Reply(Bytes{b, static_cast<Bytes::size_type>(n)}) : k.c->Notify(Bytes{b, static_cast<Bytes::size_type>(n)});
  if (n > (reply ? kMaxReply : kMaxNotify)) { sym_assert(!r.has_value() && r.error().GetOsDependentErrorCode() == EMSGSIZE, "an answer longer than agreed is sent"); } else { sym_assert(r.has_value(), "an answer is not sent"); check_frame(k.fd, at[k.fd], score::cpp::to_underlying(reply ? detail::ServerToClient::REPLY : detail::ServerToClient::NOTIFY), b, n); at[k.fd] += 3 + n; }
  for (int i = 0; i < kFds; i++) sym_assert(g->s[i].out.tail == at[i], "something is sent to another client"); }
static Bl got(SC& c, Bytes m, bool req, Con* k) { sym_assert(w->listening, "a message is handed out after listening stopped"); Con* o = nullptr; for (int i = 0; i < w->n; i++) if (w->con[i].c == &c && w->con[i].alive) o = &w->con[i]; sym_assert(o != nullptr && (k == nullptr || k == o) && o->accepted && o->handler == (k != nullptr), "a message of a connection that is not established"); k = o; same_id(c, k->fd);
  k->calls++; k->last_req = req; k->n = m.size(); sym_assert(k->n <= 4, "size"); if (k->n) std::memcpy(k->b, m.data(), k->n); if (w->reply >= 0) send_from(*k, req, w->reply); if (!w->verdict_ok) return fail(EPROTO); return {}; }
static void gone(SC& c, Con* k) { for (int i = 0; i < w->n && k == nullptr; i++) if (w->con[i].c == &c && w->con[i].disconnects == 0) k = &w->con[i]; sym_assert(k != nullptr && k->c == &c && k->accepted && k->disconnects == 0, "a connection is reported gone twice or was never there"); sym_assert(g->s[k->fd].open, "reported gone after it was closed"); same_id(c, k->fd); k->disconnects++; }
struct H : IConnectionHandler { Con* k; explicit H(Con* c) : k(c) {} ~H() override { sym_assert(k->disconnects == 1, "a handler is destroyed before its connection is reported gone"); k->deleted++; } Bl OnMessageSent(SC& c, Bytes m) noexcept override { return got(c, m, false, k); } Bl OnMessageSentWithReply(SC& c, Bytes m) noexcept override { return got(c, m, true, k); } void OnDisconnect(SC& c) noexcept override { gone(c, k); } };
static score::cpp::expected<UserData, Err> on_connect(SC& c) { sym_assert(w->listening & (w->n < 8), "connected after listening stopped"); Con& k = w->con[w->n++]; k.fd = g->next_fd - 1; k.c = &c; same_id(c, k.fd); if (w->kind == 2) return fail(EPERM); k.accepted = k.alive = true; k.handler = w->kind == 0; if (k.handler) return UserData{HP{score::cpp::pmr::make_unique<H>(mr(), &k)}}; return UserData{static_cast<void*>(&k)}; }
static Bl start() { w->listening = true; Bl r = w->bare ? w->srv->StartListening([](SC& c) { return on_connect(c); }, w->mask & 1 ? DisconnectCallback{[](SC& c) { gone(c, nullptr); }} : DisconnectCallback{}, w->mask & 2 ? MessageCallback{[](SC& c, Bytes m) { return got(c, m, false, nullptr); }} : MessageCallback{}, w->mask & 4 ? MessageCallback{[](SC& c, Bytes m) { return got(c, m, true, nullptr); }} : MessageCallback{}) : w->srv->StartListening([](SC& c) { return on_connect(c); }, [](SC& c) { gone(c, nullptr); }, [](SC& c, Bytes m) { return got(c, m, false, nullptr); }, [](SC& c, Bytes m) { return got(c, m, true, nullptr); }); if (!r.has_value()) w->listening = false; return r; }
static void stop() { w->srv->StopListening(); w->listening = false; for (int i = 0; i < w->n; i++) w->con[i].alive = false; sym_assert(!g->server_open, "the listening socket stays open"); }
static void check() { int open = 0; for (int i = 0; i < w->n; i++) { Con& k = w->con[i]; sym_assert(g->s[k.fd].open == k.alive, k.alive ? "a connection is closed for no reason" : "a connection stays open"); sym_assert((w->bare & !(w->mask & 1)) | (k.disconnects == (k.accepted & !k.alive)), "the end of a connection is not reported exactly once"); sym_assert(k.deleted == (k.handler & !k.alive), "a handler outlives its connection"); sym_assert(g->closes[k.fd] == !k.alive, "a descriptor is closed several times"); open += k.alive; } for (int i = kFirst; i < kFds; i++) open -= g->s[i].open; sym_assert(open == 0, "a descriptor leaks"); }
static void put(int fd, std::uint8_t code, const std::uint8_t* b, int n) { Stream& s = g->s[fd].in; sym_assert(s.tail + 3 + n <= kRing, "harness: stream"); s.b[s.tail] = code; s.b[s.tail + 1] = static_cast<std::uint8_t>(n); s.b[s.tail + 2] = 0; if (n) std::memcpy(s.b + s.tail + 3, b, n); s.tail += 3 + n; }
static Con* pick(const char* what) { int l = 0; for (int i = 0; i < w->n; i++) l += w->con[i].alive; if (l == 0) return nullptr; int r = sym_choose(l, what); for (int i = 0; i < w->n; i++) if (w->con[i].alive && r-- == 0) return &w->con[i]; return nullptr; }
static void command(void (*f)()) { static ISharedResourceEngine::CommandQueueEntry c; w->e->EnqueueCommand(c, {}, [f](auto) noexcept { f(); }, nullptr); }
// the harness is the world outside of the engine thread: at every poll at which nothing is readable, the next step happens
static int g_step, g_last; static bool (*g_next)(); static void (*g_after)();
static void idle(pollfd* p, nfds_t n, int timeout) { if (ready(p, n) > 0) return; sym_assert(timeout == -1, "wakes up without a reason"); g->peer_err = 0; if (g_after) { auto a = g_after; g_after = nullptr; a(); } check(); if (!g_next()) quit(); }
static void drive(World& ww, Net& n, bool (*next)()) { w = &ww; g_step = 0; g_next = next; g_after = nullptr; sym_clock_fixed(1000000000); install(n); UnixDomainEngine e{mr(), {}}; ww.e = &e; std::optional<UnixDomainServer> s; struct Alias { static std::shared_ptr<UnixDomainEngine> of(UnixDomainEngine& e) { return {&e, [](UnixDomainEngine*) {}}; } };
  s.emplace(Alias::of(e), kProto, IServerFactory::ServerConfig{}); ww.srv = &*s; n.on_poll = idle; g_run(g_state); ww.listening = false; s.reset(); for (int i = 0; i < ww.n; i++) ww.con[i].alive = false; check(); sym_assert(!n.server_open, "the listening socket stays open"); }
static Con* g_c; static int g_calls; static bool g_req, g_bad, g_long, g_sent; static std::uint8_t g_b[4]; static int g_n;
static void expect_message() { Con& k = *g_c; bool deliver = !g_bad & !g_long; sym_assert(k.calls == g_calls + deliver, deliver ? "a message is not handed out exactly once" : "a malformed message is handed out"); if (deliver) { bool eq = (k.last_req == g_req) & (k.n == static_cast<std::uint32_t>(g_n)); for (int i = 0; i < g_n; i++) eq &= k.b[i] == g_b[i]; sym_assert(eq, "another message is handed out"); sym_reach(g_req ? "request" : "send"); } if (!deliver || !w->verdict_ok) { k.alive = false; if (g_bad) sym_reach("bogus"); else if (g_long) sym_reach("toolong"); else sym_reach("verdict"); } }
static bool message(bool full) { Con* k = pick("connection"); if (k == nullptr) return false; g_c = k; g_calls = k->calls; int code = sym_choose(full ? 3 : 2, "code"); g_req = code == 1; g_bad = code == 2; g_n = full ? static_cast<int>(sym_choose(4, "size")) : 1; g_long = g_n > kMaxSend; sym_make(g_b, 4, "data"); std::uint8_t c = g_req ? score::cpp::to_underlying(detail::ClientToServer::REQUEST) : score::cpp::to_underlying(detail::ClientToServer::SEND); if (g_bad) { c = sym_u8("code"); sym_assume(c > 1); }
  w->verdict_ok = true; w->reply = -1; if (full & !g_bad & !g_long) { w->verdict_ok = sym_bool("verdict"); w->reply = g_n == 0 ? static_cast<int>(sym_choose(4, "reply")) - 1 : -1; } put(k->fd, c, g_b, g_n); g_after = expect_message; return true; }
static void connect(int kind) { w->kind = kind; g->pending = 1; g_last = w->n; g_after = [] { sym_assert(w->n == g_last + 1, "the connection callback is not called exactly once"); if (w->kind == 2) sym_reach("rejected"); }; }
static bool step_full() {
  if (g_step == 0) { g_step++; command([] { sym_assert(start().has_value(), "listening fails"); }); return true; }
  if (g_step++ > K) return false;
  for (;;) switch (sym_choose(5, "op")) {
    case 0: if (!w->listening) { sym_assume(false); } { int f = sym_choose(5, "connect"); if (f < 3) connect(f); else { g_last = w->n; if (f == 3) { g->accept_err = EMFILE; } else { g->peer_err = EINVAL; g->pending = 1; } g_after = [] { sym_assert(w->n == g_last, "a failed connection is announced"); for (int i = kFirst; i < g->next_fd; i++) { bool mine = false; for (int j = 0; j < w->n; j++) mine |= w->con[j].fd == i; if (!mine) sym_assert(!g->s[i].open, "the descriptor of a failed connection leaks"); } sym_reach("accept_failed"); }; } } return true;
    case 1: if (!message(true)) sym_assume(false); return true;
    case 2: { Con* k = pick("connection"); sym_assume(k != nullptr); if (sym_bool("partial")) { Stream& s = g->s[k->fd].in; s.b[s.tail++] = 1; } g->s[k->fd].in.eof = true; g_c = k; g_calls = k->calls; g_after = [] { sym_assert(g_c->calls == g_calls, "a message nobody sent"); g_c->alive = false; sym_reach("cut"); }; return true; }
    case 3: if (w->listening) { command([] { stop(); sym_reach("stopped"); }); } else { command([] { sym_assert(start().has_value(), "listening again fails"); sym_reach("restarted"); }); } return true;
    default: { Con* k = pick("connection"); sym_assume(k != nullptr); g_c = k; bool reply = sym_bool("reply"); send_from(*k, reply, sym_choose(4, "size")); return true; }
  }
}
extern "C" void h_srv_history() { Net n; World ww; drive(ww, n, step_full); }
static bool step_many() {
  if (g_step == 0) { g_step++; command([] { sym_assert(start().has_value(), "listening fails"); }); return true; }
  if (g_step <= 2) { g_step++; connect(sym_choose(2, "kind")); return true; }
  if (g_step == 3) sym_reach("two");
  if (g_step++ > K) return false;
  switch (sym_choose(3, "op")) { case 0: connect(sym_choose(2, "kind")); return true; case 1: sym_assume(message(false)); return true; default: { Con* k = pick("connection"); sym_assume(k != nullptr); g->s[k->fd].in.eof = true; g_c = k; g_after = [] { g_c->alive = false; }; return true; } }
}
extern "C" void h_srv_many() { Net n; World ww; drive(ww, n, step_many); }
static bool step_bare() {
  switch (g_step++) { case 0: command([] { sym_assert(start().has_value(), "listening fails"); }); return true; case 1: connect(1); return true;
    case 2: if (sym_bool("message")) { g_c = &w->con[0]; const std::uint8_t code = sym_u8("code"); put(g_c->fd, code, nullptr, 0); g_calls = (code == score::cpp::to_underlying(detail::ClientToServer::SEND) && (w->mask & 2)) || (code == score::cpp::to_underlying(detail::ClientToServer::REQUEST) && (w->mask & 4)); g_after = [] { sym_assert(g_c->calls == g_calls, "a message is handed to a callback of another kind"); if (!g_calls) g_c->alive = false; sym_reach(g_calls ? "handled" : "message"); }; } else { g_c = &w->con[0]; g->s[g_c->fd].in.eof = true; g_after = [] { g_c->alive = false; sym_reach("gone"); }; } return true; default: return false; }
}
extern "C" void h_srv_bare() { Net n; World ww; ww.bare = true; ww.mask = sym_choose(8, "callbacks"); drive(ww, n, step_bare); }   // callbacks that are optional and not given
static bool step_start() {
  switch (g_step++) { case 0: { int f = sym_choose(4, "fault"); g->socket_err = f == 1 ? EMFILE : 0; g->bind_err = f == 2 ? EADDRINUSE : 0; g->listen_err = f == 3 ? EADDRINUSE : 0; command([] { int want = g->socket_err | g->bind_err | g->listen_err; auto r = start(); sym_assert(r.has_value() == (want == 0), "the result of listening"); if (want) { sym_assert(r.error().GetOsDependentErrorCode() == want, "another error"); sym_assert(!g->server_open, "the listening socket leaks"); sym_reach("failed"); } else sym_reach("started"); g->socket_err = g->bind_err = g->listen_err = 0; }); return true; }
    case 1: if (!w->listening) command([] { sym_assert(start().has_value(), "listening fails after a failure"); }); else command([] { stop(); stop(); sym_assert(start().has_value(), "listening again fails"); }); return true;
    case 2: connect(1); return true; default: return false; }
}
extern "C" void h_srv_start() { Net n; World ww; drive(ww, n, step_start); }

// StopListening() on another thread than the engine's
static std::mutex g_m; static std::condition_variable g_cv; static bool g_stopping, g_stopped;
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { std::unique_lock<std::mutex> l{g_m}; while (*a == v) g_cv.wait(l); return true; }
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) { std::lock_guard<std::mutex> l{g_m}; g_cv.notify_all(); }

static void blocking(pollfd* p, nfds_t n, int) { std::unique_lock<std::mutex> l{g_m}; while (ready(p, n) == 0) g_cv.wait(l); }
extern "C" void h_srv_stop_thread() {
  Net n; World ww; w = &ww; g_tid = 2; g_on_write = [] { std::lock_guard<std::mutex> l{g_m}; g_cv.notify_all(); }; g_stopping = g_stopped = false; sym_clock_fixed(1000000000); install(n); UnixDomainEngine e{mr(), {}}; ww.e = &e; n.on_poll = blocking;
  { UnixDomainServer s{{&e, [](UnixDomainEngine*) {}}, kProto, IServerFactory::ServerConfig{}}; ww.srv = &s; sym_assert(start().has_value(), "listening fails"); ww.kind = sym_choose(2, "kind"); n.pending = sym_choose(2, "client"); bool msg = n.pending && sym_bool("message"); if (msg) { std::uint8_t b = 0; put(kFirst, score::cpp::to_underlying(detail::ClientToServer::SEND), &b, 1); }
    sym_par(PRE, 0, 0, [&] { g_run(g_state); }, [&] { s.StopListening(); ww.listening = false; for (int i = 0; i < ww.n; i++) ww.con[i].alive = false; check(); sym_assert(!n.server_open, "the listening socket stays open"); quit(); { std::lock_guard<std::mutex> l{g_m}; g_cv.notify_all(); } });
    if (ww.n) sym_reach("connected"); if (ww.n && ww.con[0].calls) sym_reach("served"); if (ww.n == 0 && n.pending) sym_reach("missed");
  }
  n.pipe_n = 0; }
