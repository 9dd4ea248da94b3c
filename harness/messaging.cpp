// SOURCES: score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp score/mw/com/impl/bindings/lola/messaging/i_message_passing_service.cpp score/mw/com/impl/bindings/lola/element_fq_id.cpp score/mw/com/impl/service_element_type.cpp score/mw/com/impl/configuration/quality_type.cpp score/mw/com/impl/com_error.cpp score/mw/com/impl/method_type.cpp score/mw/com/impl/bindings/lola/methods/method_error.cpp score/mw/com/impl/error_serializer.cpp score/mw/com/impl/bindings/lola/skeleton_instance_identifier.cpp score/mw/com/impl/bindings/lola/proxy_instance_identifier.cpp score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.cpp score/mw/com/impl/bindings/lola/methods/unique_method_identifier.cpp score/mw/com/impl/bindings/lola/messaging/client_quality_type.cpp
// ENTRY: h_mp_notify property=C30 reach=local,remote,lapsed,gone quick=150 thorough=900 defs=K=4 tdefs=K=5
// ENTRY: h_mp_exist property=C30 reach=up,down,outdated quick=150 thorough=900 defs=K=4 tdefs=K=5
// ENTRY: h_mp_exist_threads property=C30 reach=end quick=150 thorough=900 defs=PRE=4 tdefs=PRE=5
// ENTRY: h_mp_remote property=C30 reach=sent,unsent,moved quick=150 thorough=900 defs=K=5 tdefs=K=6
// ENTRY: h_mp_nodes property=C30 reach=few,many quick=100 thorough=300
// ENTRY: h_mp_cache property=C30 reach=reused,replaced,stopped,unreachable quick=100 thorough=300 defs=K=4 tdefs=K=5
// ENTRY: h_mp_notify_threads property=C30 reach=called,missed quick=150 thorough=900 defs=PRE=5 tdefs=PRE=7
// ENTRY: h_mp_late property=C31 reach=late quick=60 thorough=120
// ENTRY: h_mp_bytes property=C31 reach=sent,ignored,notified quick=100 thorough=300
// ENTRY: h_mp_method_bytes property=C31 reach=wrong_size,wrong_type,empty,called,subscribed,unsubscribed,no_reply quick=100 thorough=300
// ENTRY: h_mp_methods property=C31 reach=not_offered,stranger,destroyed,refused,called,subscribed,unsubscribed quick=100 thorough=300
// ENTRY: h_mp_calls property=C31 reach=unsent,wrong_size,refused,done quick=100 thorough=300
// BOUND: histories of 4 (5) steps over two events, two handlers, two remote processes; threads with 4 to 5 (5 to 7) preemptions; up to 41 interested processes; all messages of up to 20 bytes; all replies of up to 8 bytes
// ASSUME: handlers return only method errors (or kBindingFailure, as the skeleton does); the executor runs what it was given, in order; locks of the scope stand-in are fair
#include "sym.h"
#include "score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h"
#include "score/mw/com/impl/bindings/lola/methods/method_error.h"
#include "score/mw/com/impl/com_error.h"
#include "score/os/unistd.h"
#include "score/message_passing/i_server_connection.h"
#include "score/message_passing/i_client_connection.h"
#include <cstring>
#include <map>
#include <memory>
#include <string>
#ifndef K
#define K 4
#endif
#ifndef PRE
#define PRE 2
#endif
namespace I = score::mw::com::impl; namespace L = score::mw::com::impl::lola; namespace MP = score::message_passing; using score::cpp::span; using OsErr = score::os::Error; using Svc = L::IMessagePassingService;
namespace {
bool flip(const char* n) { return sym_choose(2, n) != 0; }
constexpr pid_t kSelf = 1; constexpr int kLog = 64;
struct Msg { pid_t to; std::uint8_t n; std::uint8_t b[32]; };
struct Net { Msg log[kLog]; int n = 0; int created = 0; int alive = 0; MP::IClientConnection::State st[64]; pid_t pid[64]; int stops[64]; std::string name; bool queue_full = false, async = false, starting_forever = false, fails = false; // clients by creation order
  int wait_err = 0; std::uint8_t reply[8]{}; std::uint32_t reply_n = 0; void (*on_wait)(Net&) = nullptr; };
Net* g;
struct Client : MP::IClientConnection {
  int i; bool started = false; mutable int looks = 0;
  explicit Client(pid_t p) : i{g->created++} { sym_assert(i < 64, "harness: clients"); g->alive++; g->pid[i] = p; g->st[i] = State::kStopped; g->stops[i] = 0; }
  ~Client() override { g->alive--; }
  void put(span<const std::uint8_t> m) { sym_assert(g->n < kLog, "harness: messages"); Msg& x = g->log[g->n++]; x.to = g->pid[i]; sym_assert(m.size() <= 32, "a message larger than announced"); x.n = static_cast<std::uint8_t>(m.size()); std::memcpy(x.b, m.data(), m.size()); }
  score::cpp::expected_blank<OsErr> Send(span<const std::uint8_t> m) noexcept override { if (g->st[i] != State::kReady) return score::cpp::make_unexpected(OsErr::createFromErrno(EINVAL)); put(m); if (g->queue_full) return score::cpp::make_unexpected(OsErr::createFromErrno(ENOBUFS)); return {}; }
  score::cpp::expected<span<const std::uint8_t>, OsErr> SendWaitReply(span<const std::uint8_t> m, span<std::uint8_t> r) noexcept override {
    if (g->st[i] != State::kReady) return score::cpp::make_unexpected(OsErr::createFromErrno(EINVAL)); put(m); if (g->on_wait) g->on_wait(*g); if (g->wait_err) return score::cpp::make_unexpected(OsErr::createFromErrno(g->wait_err));
    if (g->reply_n > r.size()) return score::cpp::make_unexpected(OsErr::createFromErrno(EMSGSIZE)); std::memcpy(r.data(), g->reply, g->reply_n); return span<const std::uint8_t>{r.data(), static_cast<std::size_t>(g->reply_n)}; }
  score::cpp::expected_blank<OsErr> SendWithCallback(span<const std::uint8_t>, ReplyCallback) noexcept override { sym_assert(false, "not expected"); return {}; }
  State GetState() const noexcept override { return g->st[i]; }
  StopReason GetStopReason() const noexcept override { return StopReason::kClosedByPeer; }
  void Start(StateCallback, NotifyCallback) noexcept override { sym_assert(!started, "started twice"); started = true; g->st[i] = g->fails ? State::kStopped : g->starting_forever ? State::kStarting : State::kReady; }
  void Stop() noexcept override { g->stops[i]++; g->st[i] = State::kStopped; }
  void Restart() noexcept override { sym_assert(false, "not expected"); }
};
struct CF : MP::IClientFactory {
  score::cpp::pmr::unique_ptr<MP::IClientConnection> Create(const MP::ServiceProtocolConfig& p, const ClientConfig& c) noexcept override {
    auto id = std::string{p.identifier}; sym_assert(id.substr(0, 7) == "LoLa_2_", "another service"); pid_t pid = 0; std::size_t k = 7; while (k < id.size() && id[k] != '_') pid = pid * 10 + (id[k++] - '0'); g->name = id.substr(k); g->async = c.truly_async;
    return score::cpp::pmr::make_unique<Client>(score::cpp::pmr::get_default_resource(), pid); }
};
struct Conn;
struct Server : MP::IServer {
  MP::ConnectCallback con; MP::DisconnectCallback dis; MP::MessageCallback sent, sent_reply; static Server* last; bool listen = false; void (*at_end)() = nullptr;
  ~Server() override { if (at_end) at_end(); last = nullptr; }
  score::cpp::expected_blank<OsErr> StartListening(MP::ConnectCallback c, MP::DisconnectCallback d, MP::MessageCallback s, MP::MessageCallback r) noexcept override { con = std::move(c); dis = std::move(d); sent = std::move(s); sent_reply = std::move(r); listen = true; last = this; return {}; }
  void StopListening() noexcept override { listen = false; }
};
Server* Server::last = nullptr;
struct SF : MP::IServerFactory { std::string id; score::cpp::pmr::unique_ptr<MP::IServer> Create(const MP::ServiceProtocolConfig& p, const ServerConfig&) noexcept override { id = std::string{p.identifier}; return score::cpp::pmr::make_unique<Server>(score::cpp::pmr::get_default_resource()); } };
struct Conn : MP::IServerConnection {
  MP::ClientIdentity who{}; MP::UserData ud; int replies = 0; std::uint8_t r[32]{}; std::uint32_t rn = 0; bool reply_fails = false;
  explicit Conn(pid_t p, uid_t u) { who.pid = p; who.uid = u; auto x = Server::last->con(*this); sym_assert(x.has_value(), "the connection was refused"); ud = std::move(x.value()); }
  const MP::ClientIdentity& GetClientIdentity() const& noexcept override { return who; }
  MP::UserData& GetUserData() noexcept override { return ud; }
  score::cpp::expected_blank<OsErr> Reply(span<const std::uint8_t> m) noexcept override { replies++; sym_assert(m.size() <= 32, "the reply does not fit"); rn = m.size(); std::memcpy(r, m.data(), m.size()); if (reply_fails) return score::cpp::make_unexpected(OsErr::createFromErrno(EPIPE)); return {}; }
  score::cpp::expected_blank<OsErr> Notify(span<const std::uint8_t>) noexcept override { sym_assert(false, "not expected"); return {}; }
  void RequestDisconnect() noexcept override {}
  bool send(const std::uint8_t* b, std::size_t n) { return Server::last->sent(*this, span<const std::uint8_t>{b, n}).has_value(); }
  bool call(const std::uint8_t* b, std::size_t n) { return Server::last->sent_reply(*this, span<const std::uint8_t>{b, n}).has_value(); }
};
struct Ex : score::concurrency::Executor {};
struct Os : score::os::Unistd { uid_t uid = 0; pid_t getpid() const noexcept override { return kSelf; } uid_t getuid() const noexcept override { return uid; } };
// one process's messaging
struct World { Os os; Net net; CF cf; SF sf; Ex ex; std::unique_ptr<L::MessagePassingServiceInstance> inst; explicit World(L::ClientQualityType q = L::ClientQualityType::kASIL_QM, uid_t me = 0) { g = &net; os.uid = me; score::os::Unistd::set_testing_instance(os); inst = std::make_unique<L::MessagePassingServiceInstance>(q, L::AsilSpecificCfg{}, sf, cf, ex); } void run() { while (ex.stub_run_one()) {} } };
const L::ElementFqId kEv[2] = {{1, 2, 3, I::ServiceElementType::EVENT}, {1, 2, 4, I::ServiceElementType::FIELD}};
enum : std::uint8_t { kReg = 1, kUnreg = 2, kNote = 3, kOld = 4, kSub = 1, kCall = 2, kUnsub = 3 };
template <class T> std::size_t pack(std::uint8_t* b, std::uint8_t id, const T& t) { b[0] = id; std::memcpy(b + 1, &t, sizeof t); return sizeof t + 1; }
template <class T> bool said(const Msg& m, pid_t to, std::uint8_t id, const T& t) { return m.to == to && m.n == sizeof(T) + 1 && m.b[0] == id && std::memcmp(m.b + 1, &t, sizeof t) == 0; }
L::ElementFqId clean(const L::ElementFqId& e) { alignas(L::ElementFqId) static L::ElementFqId x; std::memset(static_cast<void*>(&x), 0, sizeof x); x.service_id_ = e.service_id_; x.element_id_ = e.element_id_; x.instance_id_ = e.instance_id_; x.element_type_ = e.element_type_; return x; }
bool said_ev(const Msg& m, pid_t to, std::uint8_t id, const L::ElementFqId& e) { L::ElementFqId x; if (!(m.to == to && m.n == sizeof x + 1 && m.b[0] == id)) return false; std::memcpy(&x, m.b + 1, sizeof x); return x == e; }
struct H { std::shared_ptr<I::ScopedEventReceiveHandler> f; int calls = 0; score::safecpp::Scope<> scope; void make() { f = std::make_shared<I::ScopedEventReceiveHandler>(scope, [this]() { calls++; }); } };
}
// who is told about an update: every live registered handler, every process that registered its interest, nobody else
extern "C" void h_mp_notify() {
  World w; Conn a{21, 5}, b{2147483647, 6}; Conn* c[2] = {&a, &b}; H h[3]; struct R { bool on = false; int ev; std::uint32_t no; } r[3]; bool node[2][2]{}; std::uint8_t buf[32];
  for (auto& x : h) x.make();
  for (int s = 0; s < K; s++) switch (sym_choose(6, "op")) {
    case 0: { int i = s % 3; if (!r[i].on && h[i].f) { r[i].ev = sym_choose(2, "ev"); r[i].on = true; r[i].no = w.inst->RegisterEventNotification(kEv[r[i].ev], h[i].f, kSelf); for (int j = 0; j < 3; j++) sym_assert(j == i || !r[j].on || r[j].no != r[i].no, "two registrations share a number"); } break; }
    case 1: { int i = sym_choose(3, "handler"); if (r[i].on) { r[i].on = false; w.inst->UnregisterEventNotification(kEv[r[i].ev], r[i].no, kSelf); } break; }
    case 2: { int p = sym_choose(2, "node"), e = s & 1; c[p]->send(buf, pack(buf, kReg, clean(kEv[e]))); node[e][p] = true; break; }
    case 3: { int p = sym_choose(2, "node"); if (flip("outdated")) { pid_t x = c[p]->who.pid; c[!p]->send(buf, pack(buf, kOld, x)); node[0][p] = node[1][p] = false; sym_reach("gone"); } else { int e = sym_choose(2, "ev"); c[p]->send(buf, pack(buf, kUnreg, clean(kEv[e]))); node[e][p] = false; } break; }
    case 4: { int i = s % 3; if (flip("scope")) { h[i].scope.Expire(); h[i].f.reset(); h[i].calls = -1000; } else h[i].f.reset(); sym_reach("lapsed"); break; }
    case 5: { int e = sym_choose(2, "ev"); bool remote = flip("from_remote"); int old[3]; for (int i = 0; i < 3; i++) old[i] = h[i].calls; int n0 = w.net.n;
      if (remote) a.send(buf, pack(buf, kNote, clean(kEv[e]))); else { w.inst->NotifyEvent(kEv[e]); for (int i = 0; i < 3; i++) sym_assert(h[i].calls == old[i], "a handler runs on the sender's thread"); w.run(); }
      for (int i = 0; i < 3; i++) { bool due = r[i].on && r[i].ev == e && h[i].f; sym_assert(h[i].calls == old[i] + due, due ? "a registered handler was not called (exactly once)" : "a handler was called that is not registered for this event, or gone"); if (due) sym_reach("local"); }
      int want = remote ? 0 : node[e][0] + node[e][1]; sym_assert(w.net.n == n0 + want, "not every interested process was notified (exactly once)"); for (int k = n0; k < w.net.n; k++) { bool ok = false; for (int p = 0; p < 2; p++) ok = ok || (node[e][p] && said_ev(w.net.log[k], c[p]->who.pid, kNote, kEv[e])); sym_assert(ok, "an uninterested process was notified, or about something else"); sym_reach("remote"); }
      if (want == 2) sym_assert(w.net.log[n0].to != w.net.log[n0 + 1].to, "a process was notified twice"); break; }
  }
}
// the provider knows at any time whether anybody (here or elsewhere) wants to be told
extern "C" void h_mp_exist() {
  World w; Conn a{21, 5}, b{22, 6}; Conn* c[2] = {&a, &b}; H h; h.make(); std::uint8_t buf[32]; struct St { bool reg = false; bool v = false; } st[2]; int local[2]{}; std::uint32_t no[2][2]; bool node[2][2]{};
  auto any = [&](int e) { return local[e] > 0 || node[e][0] || node[e][1]; };
  auto hook = [&](int e) { St* p = &st[e]; *p = {true, false}; w.inst->RegisterEventNotificationExistenceChangedCallback(kEv[e], [p](bool v) noexcept { sym_assert(p->reg, "called after it was withdrawn"); sym_assert(v != p->v, "told again what it knows"); p->v = v; sym_reach(v ? "up" : "down"); }); };
  if (flip("first")) hook(0);
  for (int s = 0; s < K; s++) {
    int e = s == 0 ? 0 : sym_choose(2, "ev");
    switch (sym_choose(6, "op")) {
      case 0: if (local[e] < 2) no[e][local[e]++] = w.inst->RegisterEventNotification(kEv[e], h.f, kSelf); break;
      case 1: if (local[e] > 0) { w.inst->UnregisterEventNotification(kEv[e], no[e][--local[e]], kSelf); } break;
      case 2: { int p = sym_choose(2, "node"); c[p]->send(buf, pack(buf, kReg, clean(kEv[e]))); node[e][p] = true; break; }
      case 3: { int p = sym_choose(2, "node"); c[p]->send(buf, pack(buf, kUnreg, clean(kEv[e]))); node[e][p] = false; break; }
      case 4: { pid_t x = 21; b.send(buf, pack(buf, kOld, x)); node[0][0] = node[1][0] = false; sym_reach("outdated"); break; }
      case 5: if (st[e].reg) { w.inst->UnregisterEventNotificationExistenceChangedCallback(kEv[e]); st[e] = {}; } else hook(e); break;
    }
    for (int i = 0; i < 2; i++) sym_assert(!st[i].reg || st[i].v == any(i), any(i) ? "somebody wants to be told, but the provider does not know" : "nobody wants to be told any more, but the provider does not know");
  }
}
// the same with the threads of this process and the messages of another one
extern "C" void h_mp_exist_threads() {
  static World* w; static Conn* a; static H* h; static int dummy; w = new World; a = new Conn{21, 5}; h = new H; h->make(); sym_shared(&dummy, 4, 1); static std::uint8_t buf[32]; std::size_t n = 0; static bool v; v = false; static int depth; depth = 0;
  bool had_local = flip("had_local"), had_remote = flip("had_remote"); std::uint32_t no = 0; L::ElementFqId ev = clean(kEv[0]);
  w->inst->RegisterEventNotificationExistenceChangedCallback(ev, [](bool x) noexcept { v = x; });
  if (had_local) no = w->inst->RegisterEventNotification(ev, h->f, kSelf); if (had_remote) { n = pack(buf, kReg, ev); a->send(buf, n); }
  n = pack(buf, had_remote ? kUnreg : kReg, ev);
  sym_par(PRE, 0, 0, [&] { if (had_local) w->inst->UnregisterEventNotification(ev, no, kSelf); else no = w->inst->RegisterEventNotification(ev, h->f, kSelf); }, [&] { a->send(buf, n); });
  bool any = !had_local || !had_remote; sym_assert(v == any, any ? "somebody wants to be told, but the provider was told last that nobody does" : "nobody wants to be told any more, but the provider does not know"); sym_reach("end");
}
// an update arrives while the handler is withdrawn: it runs or it does not, but never after its owner is gone, and others are not disturbed
extern "C" void h_mp_notify_threads() {
  static World* w; static Conn* a; static H *h, *k; static int dummy; w = new World; a = new Conn{21, 5}; h = new H; k = new H; h->make(); k->make(); sym_shared(&dummy, 4, 1); static std::uint8_t buf[32]; L::ElementFqId ev = clean(kEv[0]); std::size_t n = pack(buf, kNote, ev); static int was; was = 0; bool post = flip("post"), third = flip("third");
  auto no = w->inst->RegisterEventNotification(ev, h->f, kSelf); auto no2 = w->inst->RegisterEventNotification(ev, k->f, kSelf); std::uint32_t no3 = 0; static H* x; x = new H; x->make();
  sym_par(PRE, 0, 0, [&] { if (post) { w->inst->NotifyEvent(ev); w->run(); } else a->send(buf, n); }, [&] { w->inst->UnregisterEventNotification(ev, no, kSelf); h->scope.Expire(); was = h->calls; h->f.reset(); delete h; h = nullptr; if (third) no3 = w->inst->RegisterEventNotification(ev, x->f, kSelf); });
  sym_assert(k->calls == 1, "another handler missed the update"); sym_assert(was <= 1 && x->calls <= third, "called twice"); if (was) sym_reach("called"); else sym_reach("missed");
  a->send(buf, n); sym_assert(k->calls == 2, "the other handler was lost"); if (third) sym_assert(x->calls >= 1 && no3 != no2, "the new handler was lost");
}
// the process of the event's provider knows of the interest of this process exactly while there is one
extern "C" void h_mp_remote() {
  World w; H h; h.make(); pid_t node = 0; int count = 0; struct R { bool on = false; std::uint32_t no; pid_t at; } r[K + 1]; int used = 0; const auto ev = kEv[0]; pid_t cur = 31; // where the provider runs now
  for (int s = 0; s < K; s++) { int n0 = w.net.n; std::uint8_t want = 0; pid_t to = 0;
    switch (sym_choose(5, "op")) {
      case 0: { r[used] = {true, 0, cur}; r[used].no = w.inst->RegisterEventNotification(ev, h.f, cur); used++; if (node != cur) { node = cur; count = 1; want = kReg; to = cur; } else count++; break; }
      case 1: { int i = sym_choose(used + 1, "which"); if (i == used || !r[i].on) { w.inst->UnregisterEventNotification(ev, 77, cur); break; } r[i].on = false; w.inst->UnregisterEventNotification(ev, r[i].no, r[i].at); if (node == r[i].at && --count == 0) { bool ready = false; for (int k = 0; k < w.net.created; k++) if (w.net.pid[k] == node) ready = w.net.st[k] == MP::IClientConnection::State::kReady; if (ready) { want = kUnreg; to = node; } node = 0; } break; }
      case 2: { cur = cur == 31 ? 32 : 31; sym_reach("moved"); break; } // the provider restarts as another process
      case 3: { for (int i = 0; i < used; i++) if (r[i].on && r[i].at != cur) { r[i].at = cur; w.inst->ReregisterEventNotification(ev, cur); if (node != cur) { node = cur; count = 1; want = kReg; to = cur; } else count++; break; } break; }
      case 4: { if (w.net.created) w.net.st[w.net.created - 1] = MP::IClientConnection::State::kStopped; sym_reach("unsent"); break; }
    }
    sym_assert(w.net.n == n0 + (want != 0), want ? "the provider was not told" : "the provider was told although nothing changed for it"); if (want) { sym_assert(said_ev(w.net.log[n0], to, want, ev), "the wrong process was told, or the wrong thing"); sym_reach("sent"); }
  }
}
// any number of interested processes
extern "C" void h_mp_nodes() {
  World w; static const int kN[] = {1, 19, 20, 21, 40, 41}; int n = kN[sym_choose(6, "n")]; std::uint8_t buf[32]; bool big = sym_choose(2, "big") != 0, full = sym_choose(2, "full") != 0; pid_t base = big ? 2147483647 - n + 1 : 100; w.net.queue_full = full;
  for (int i = 0; i < n; i++) { Conn c{base + i, 5}; c.send(buf, pack(buf, kReg, clean(kEv[0]))); }
  w.inst->NotifyEvent(kEv[0]); sym_assert(w.net.n == n, "not every interested process was notified exactly once"); for (int i = 0; i < n; i++) sym_assert(said_ev(w.net.log[i], base + i, kNote, kEv[0]), "a process was left out or notified twice"); sym_reach(n <= 20 ? "few" : "many");
}
// connections to other processes are reused while they work and replaced when they do not
extern "C" void h_mp_cache() {
  int q = sym_choose(3, "level"); World w{q == 0 ? L::ClientQualityType::kASIL_QM : q == 1 ? L::ClientQualityType::kASIL_B : L::ClientQualityType::kASIL_QMfromB}; { L::MessagePassingClientCache c{q == 0 ? L::ClientQualityType::kASIL_QM : q == 1 ? L::ClientQualityType::kASIL_B : L::ClientQualityType::kASIL_QMfromB, w.cf}; auto& N = w.net; using St = MP::IClientConnection::State; int cur[2] = {-1, -1};
  sym_assert(w.sf.id == (q == 1 ? "LoLa_2_1_ASIL_B" : "LoLa_2_1_QM"), "the service has another name than its clients use");
  for (int s = 0; s < K; s++) { int p = s == 0 ? 0 : sym_choose(2, "node"); pid_t pid = 40 + p;
    switch (sym_choose(5, "op")) {
      case 0: { int n0 = N.created, s0 = cur[p] >= 0 ? N.stops[cur[p]] : 0; bool ok = cur[p] >= 0 && N.st[cur[p]] == St::kReady; N.fails = flip("fails"); auto x = c.GetMessagePassingClient(pid); sym_assert(x != nullptr, "no client");
        if (ok) { sym_assert(N.created == n0, "a working connection was replaced"); sym_assert(static_cast<Client*>(x.get())->i == cur[p], "the connection to another process"); sym_reach("reused"); }
        else { sym_assert(N.created == n0 + 1, "no new connection"); if (cur[p] >= 0) { sym_assert(N.stops[cur[p]] > s0, "a dead connection was dropped without being stopped"); sym_reach("replaced"); } cur[p] = n0; sym_assert(N.pid[n0] == pid && static_cast<Client*>(x.get())->i == n0, "connected to another process"); sym_assert(N.name == (q == 1 ? "_ASIL_B" : "_QM"), "connected to the wrong service"); sym_assert(N.async == (q == 2), "only the QM side of an ASIL-B process must never block"); if (N.fails) sym_reach("unreachable"); } break; }
      case 1: { auto x = c.GetCachedMessagePassingClient(pid); sym_assert((x == nullptr) == (cur[p] < 0), "the cache lost or invented a connection"); if (x) sym_assert(static_cast<Client*>(x.get())->i == cur[p], "the connection to another process"); break; }
      case 2: { if (cur[p] >= 0) N.st[cur[p]] = St::kStopped; break; }
      case 3: { int a0 = N.alive, t = cur[p]; c.RemoveMessagePassingClient(pid); if (t >= 0) { sym_assert(N.st[t] == St::kStopped && N.stops[t] > 0, "the connection was not stopped"); sym_assert(N.alive == a0 - 1, "the connection was kept"); sym_reach("stopped"); } else sym_assert(N.alive == a0, "another connection was dropped"); cur[p] = -1; break; }
      case 4: { N.queue_full = !N.queue_full; break; }
    } }
  } sym_assert(w.net.alive == 0, "connections outlive the cache");
}
// arbitrary bytes from another process: acted upon only if they are a message
extern "C" void h_mp_bytes() {
  World w; Conn a{21, 5}; H h; h.make(); int up = 0; std::uint8_t b[20]; sym_make(b, sizeof b, "bytes"); std::size_t n = sym_choose(21, "n"); const auto& e = kEv[0];
  (void)w.inst->RegisterEventNotification(e, h.f, kSelf); Conn c{22, 5}; { std::uint8_t buf[32]; c.send(buf, pack(buf, kReg, clean(kEv[1]))); } w.inst->RegisterEventNotificationExistenceChangedCallback(kEv[1], [&up](bool v) noexcept { up = v; }); sym_assert(up == 1, "harness");
  bool isev = n == sizeof(L::ElementFqId) + 1, ispid = n == sizeof(pid_t) + 1; L::ElementFqId x{}; pid_t p = 0; if (isev) std::memcpy(&x, b + 1, sizeof x); if (ispid) std::memcpy(&p, b + 1, sizeof p);
  if (n >= 1) sym_assume(b[0] <= 5); if (n >= 1 && isev) sym_assume(x.service_id_ == 1 & x.element_id_ == 2 & (x.instance_id_ == 3 | x.instance_id_ == 4)); // the hash container is addressed with known keys
  std::uint8_t t = n ? static_cast<std::uint8_t>(sym_concretize(b[0])) : 0; if (isev) x.instance_id_ = static_cast<std::uint16_t>(sym_concretize(x.instance_id_)); if (isev && n) std::memcpy(b + 1, &x, sizeof x);
  sym_assert(a.send(b, n), "a client is thrown out for what it sent"); w.run();
  bool note = isev && t == kNote && x == e, reg1 = isev && t == kReg && x == kEv[1], reg0 = isev && t == kReg && x == e, old = ispid && t == kOld && p == 22;
  sym_assert(h.calls == note, note ? "a notification was lost" : "a handler is called for something that is no notification of its event"); if (note) sym_reach("notified");
  sym_assert(w.net.n == 0, "a message is sent for no reason"); w.inst->NotifyEvent(e); w.run(); int k = w.net.n; sym_assert(k == reg0, "somebody is notified who did not ask"); if (reg0) sym_assert(said_ev(w.net.log[0], 21, kNote, e), "the wrong process is notified");
  w.inst->NotifyEvent(kEv[1]); sym_assert(w.net.n == k + reg1 + !old, "the interest of a process was lost or invented"); sym_reach(reg0 || reg1 ? "sent" : "ignored");
}
namespace {
L::SkeletonInstanceIdentifier sk(std::uint16_t s, std::uint16_t i) { L::SkeletonInstanceIdentifier x; std::memset(static_cast<void*>(&x), 0, sizeof x); x.service_id = s; x.instance_id = i; return x; }
struct SubP { L::SkeletonInstanceIdentifier s; L::ProxyInstanceIdentifier p; };
struct CallP { L::ProxyMethodInstanceIdentifier m; std::size_t q; };
std::uint32_t code(const Conn& c) { std::uint32_t v = 0; sym_assert(c.rn == sizeof v, "a reply of the wrong size"); std::memcpy(&v, c.r, sizeof v); return v; }
constexpr std::uint32_t E(L::MethodErrc e) { return static_cast<std::uint32_t>(e); }
}
// arbitrary request bytes
extern "C" void h_mp_method_bytes() {
  World w; uid_t uid = sym_u32("uid"); Conn a{21, uid}; a.reply_fails = flip("reply_fails"); std::uint8_t b[32]; sym_make(b, sizeof b, "bytes"); static const int kN[] = {0, 1, 2, 4, 8, 9, 10, 12, 13, 14, 16, 17, 20, 24, 25, 26, 32}; std::size_t n = kN[sym_choose(17, "n")]; score::safecpp::Scope<> sc; int called = 0, subbed = 0, unsubbed = 0; const L::ProxyInstanceIdentifier pi{7, 3}; L::ProxyMethodInstanceIdentifier mi{pi, {9, I::MethodType::kMethod}}; std::size_t q = 0; L::ProxyInstanceIdentifier got{};
  (void)w.inst->RegisterMethodCallHandler(mi, Svc::MethodCallHandler{sc, [&](std::size_t x) { called++; q = x; }}, uid); (void)w.inst->RegisterOnServiceMethodSubscribedHandler(sk(5, 6), Svc::ServiceMethodSubscribedHandler{sc, [&](L::ProxyInstanceIdentifier p, uid_t u, pid_t pid) -> score::Result<void> { subbed++; got = p; sym_assert(u == uid && pid == 21, "somebody else's identity"); return {}; }}, std::nullopt); (void)w.inst->RegisterOnServiceMethodUnsubscribedHandler(sk(5, 6), Svc::ServiceMethodUnsubscribedHandler{sc, [&](L::ProxyInstanceIdentifier p) -> score::Result<void> { unsubbed++; got = p; return {}; }});
  if (n) sym_assume(b[0] <= 4); std::uint8_t t = n ? static_cast<std::uint8_t>(sym_concretize(b[0])) : 0; bool sz = n && ((t == kCall && n == sizeof(CallP) + 1) || ((t == kSub || t == kUnsub) && n == sizeof(SubP) + 1)); CallP cp; SubP sp;
  if (n == sizeof(CallP) + 1) { std::memcpy(&cp, b + 1, sizeof cp); cp.m = mi; std::memcpy(b + 1, &cp, sizeof cp); } else if (n == sizeof(SubP) + 1) { std::memcpy(&sp, b + 1, sizeof sp); sp.s = sk(5, 6); std::memcpy(b + 1, &sp, sizeof sp); }
  bool stay = a.call(b, n); sym_assert(a.replies == 1, "a request gets exactly one reply"); std::uint32_t r = code(a);
  sym_assert(called == (sz && t == kCall) & subbed == (sz && t == kSub) & unsubbed == (sz && t == kUnsub), "something was called that was not requested, or not called although it was");
  if (called) { sym_assert(q == cp.q, "another position of the call queue"); sym_reach("called"); } if (subbed) { sym_assert(got == sp.p, "another proxy"); sym_reach("subscribed"); } if (unsubbed) { sym_assert(got == sp.p, "another proxy"); sym_reach("unsubscribed"); }
  bool known = n && (t == kSub || t == kCall || t == kUnsub); std::uint32_t want = sz ? 0 : !n ? E(L::MethodErrc::kUnexpectedMessageSize) : known ? E(L::MethodErrc::kUnexpectedMessageSize) : E(L::MethodErrc::kUnexpectedMessage);
  sym_assert(r == want, "the reply says something else than what happened"); sym_assert(stay == (sz && !a.reply_fails), "a client that does not follow the protocol (or cannot be answered) is disconnected, others stay"); sym_reach(sz ? "called" : !n ? "empty" : known ? "wrong_size" : "wrong_type"); if (a.reply_fails) sym_reach("no_reply");
}
// messages that arrive while the instance is being destroyed
namespace { Conn* g_late; int g_ran; }
extern "C" void h_mp_late() {
  World w; Conn a{21, 5}; g_late = &a; g_ran = 0; a.reply_fails = flip("reply_fails"); score::safecpp::Scope<> sc; H h; h.make(); (void)w.inst->RegisterEventNotification(kEv[0], h.f, kSelf); L::ProxyMethodInstanceIdentifier mi{{7, 3}, {9, I::MethodType::kMethod}};
  (void)w.inst->RegisterMethodCallHandler(mi, Svc::MethodCallHandler{sc, [](std::size_t) { g_ran++; }}, 5);
  Server::last->at_end = [] { std::uint8_t b[32]; sym_assert(g_late->send(b, pack(b, kNote, clean(kEv[0]))), "a client is thrown out"); CallP p; std::memset(static_cast<void*>(&p), 0, sizeof p); p.m = {{7, 3}, {9, I::MethodType::kMethod}}; bool stay = g_late->call(b, pack(b, kCall, p)); sym_assert(g_late->replies == 1, "a request gets exactly one reply"); sym_assert(code(*g_late) == E(L::MethodErrc::kSkeletonAlreadyDestroyed), "the reply says something else than what happened"); sym_assert(stay == !g_late->reply_fails, "a client is disconnected exactly if it cannot be answered"); };
  w.inst.reset(); sym_assert(h.calls == 0 && g_ran == 0, "a handler is called by a destroyed instance"); sym_reach("late");
}
// requests for methods: who may call, what is called, what the answer is
extern "C" void h_mp_methods() {
  uid_t uid = sym_u32("uid"), allowed = sym_u32("allowed"); bool local = flip("local"); World w{L::ClientQualityType::kASIL_QM, local ? uid : 4711}; Conn a{local ? kSelf : 21, uid}; auto sc = std::make_unique<score::safecpp::Scope<>>(); int calls = 0; bool reg = flip("registered"), restricted = flip("restricted"), expired = flip("expired"); std::uint64_t pos = sym_u64("position"); int what = sym_choose(3, "what"); bool refuse = flip("refuse"); std::uint32_t why = 1 + sym_range(0, 6, "why");
  L::ProxyInstanceIdentifier pi; std::memset(static_cast<void*>(&pi), 0, sizeof pi); pi.application_id = sym_u32("app"); pi.proxy_instance_counter = sym_u16("proxy"); L::ProxyInstanceIdentifier known{7, 3}; L::ProxyMethodInstanceIdentifier mi{known, {9, I::MethodType::kGet}};
  auto sk1 = sk(5, 6); 
  if (reg) { if (what == kCall - 1) (void)w.inst->RegisterMethodCallHandler(mi, Svc::MethodCallHandler{*sc, [&](std::size_t x) { calls++; sym_assert(x == pos, "another position of the call queue"); }}, allowed);
    else if (what == kSub - 1) { Svc::AllowedConsumerUids al; if (restricted) al = std::set<uid_t>{allowed}; (void)w.inst->RegisterOnServiceMethodSubscribedHandler(sk1, Svc::ServiceMethodSubscribedHandler{*sc, [&](L::ProxyInstanceIdentifier p, uid_t u, pid_t q) -> score::Result<void> { calls++; sym_assert(p == pi & u == uid & q == a.who.pid, "somebody else's identity"); if (refuse) return score::MakeUnexpected(static_cast<L::MethodErrc>(why)); return {}; }}, al); }
    else (void)w.inst->RegisterOnServiceMethodUnsubscribedHandler(sk1, Svc::ServiceMethodUnsubscribedHandler{*sc, [&](L::ProxyInstanceIdentifier p) -> score::Result<void> { calls++; sym_assert(p == pi, "another proxy"); if (refuse) return score::MakeUnexpected(static_cast<L::MethodErrc>(why)); return {}; }}); }
  if (reg && expired) sc->Expire();
  bool open = what == kUnsub - 1 || (what == kSub - 1 && !restricted) || uid == allowed; bool run = reg && open && !expired; bool asks = what != kCall - 1;
  std::uint32_t want; if (!reg) want = what == kUnsub - 1 ? 0 : what == kSub - 1 ? E(L::MethodErrc::kNotOffered) : E(L::MethodErrc::kNotSubscribed); else if (!open) want = E(L::MethodErrc::kUnknownProxy); else if (expired) want = what == kUnsub - 1 ? 0 : E(L::MethodErrc::kSkeletonAlreadyDestroyed); else want = asks && refuse ? why : 0;
  bool ok, stay = true;
  if (local) { score::Result<void> r; if (what == kCall - 1) r = w.inst->CallMethod(mi, pos, kSelf); else if (what == kSub - 1) r = w.inst->SubscribeServiceMethod(sk1, pi, kSelf); else r = w.inst->UnsubscribeServiceMethod(sk1, pi, kSelf); ok = r.has_value(); if (!ok) sym_assert(r.error() == I::ComErrc::kBindingFailure, "an unexpected error"); sym_assert(ok == (want == 0), "the result says something else than what happened"); sym_assert(w.net.n == 0, "a message is sent although both sides are in this process"); }
  else { std::uint8_t b[32]; std::size_t n; if (what == kCall - 1) { CallP p; std::memset(static_cast<void*>(&p), 0, sizeof p); p.m = mi; p.q = pos; n = pack(b, kCall, p); } else { SubP p; p.s = sk1; p.p = pi; n = pack(b, what == kSub - 1 ? kSub : kUnsub, p); } stay = a.call(b, n); sym_assert(a.replies == 1, "a request gets exactly one reply"); sym_assert(code(a) == want, "the reply says something else than what happened"); bool fatal = want == E(L::MethodErrc::kUnexpectedMessage) || want == E(L::MethodErrc::kUnexpectedMessageSize) || want == E(L::MethodErrc::kMessagePassingError); sym_assert(stay == !fatal, "a client is disconnected exactly if it does not follow the protocol"); }
  sym_assert(calls == run, "the handler was not called, or called for somebody who may not or after its owner is gone");
  if (!reg) sym_reach("not_offered"); else if (!open) sym_reach("stranger"); else if (expired) sym_reach("destroyed"); else if (asks && refuse) sym_reach("refused"); else if (what == 0) sym_reach("subscribed"); else if (what == 1) sym_reach("called"); else sym_reach("unsubscribed");
}
// requests to another process: success is reported exactly if the other side said so
extern "C" void h_mp_calls() {
  World w; auto& N = w.net; N.wait_err = flip("unsent") ? EIO : 0; N.reply_n = sym_choose(9, "n"); sym_make(N.reply, 8, "reply"); N.fails = flip("unreachable"); int what = sym_choose(3, "what"); L::ProxyInstanceIdentifier pi; std::memset(static_cast<void*>(&pi), 0, sizeof pi); pi.application_id = sym_u32("app"); pi.proxy_instance_counter = sym_u16("proxy"); std::uint64_t pos = sym_u64("pos"); auto s1 = sk(sym_u16("service"), sym_u16("instance")); L::ProxyMethodInstanceIdentifier mi{pi, {sym_u16("method"), I::MethodType::kSet}};
  std::uint32_t v = 0; std::memcpy(&v, N.reply, 4); bool lost = N.fails | (N.wait_err != 0) | (N.reply_n > 4); if (!lost & (N.reply_n == 4)) sym_assume(v <= E(L::MethodErrc::kUnknownProxy)); // what a server of this version answers
  auto r = what == 0 ? w.inst->SubscribeServiceMethod(s1, pi, 50) : what == 1 ? w.inst->CallMethod(mi, pos, 50) : w.inst->UnsubscribeServiceMethod(s1, pi, 50);
  bool good = !lost & (N.reply_n == 4) & (v == 0); sym_assert(r.has_value() == good, "the result says something else than the other side did"); if (!r.has_value()) sym_assert(r.error() == I::ComErrc::kBindingFailure, "an unexpected error");
  sym_assert(N.n == !N.fails, "a request is sent exactly once"); if (N.n) { const Msg& m = N.log[0]; if (what == 1) { CallP p; sym_assert(m.to == 50 && m.b[0] == kCall && m.n == sizeof p + 1, "another request"); std::memcpy(&p, m.b + 1, sizeof p); sym_assert(p.m == mi & p.q == pos, "another call"); } else { SubP p; sym_assert(m.to == 50 && m.b[0] == (what == 0 ? kSub : kUnsub) && m.n == sizeof p + 1, "another request"); std::memcpy(&p, m.b + 1, sizeof p); sym_assert(p.s == s1 & p.p == pi, "another proxy or service"); } }
  if (lost) sym_reach("unsent"); else if (N.reply_n != 4) sym_reach("wrong_size"); else if (good) sym_reach("done"); else sym_reach("refused");
}
