// SOURCES: @mem score/mw/com/gateway/transport_layer/sample/message_framer.cpp score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp score/mw/com/gateway/transport_layer/sample/messages/message_error.cpp score/mw/com/gateway/transport_layer/transport_error.cpp score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp score/mw/com/gateway/transport_layer/sample/unique_socket.cpp score/mw/com/impl/instance_specifier.cpp
// ENTRY: h_gw_roundtrip property=C37 reach=provide,service,element,ack quick=150 thorough=900 defs=CUTS=1 tdefs=CUTS=2
// ENTRY: h_gw_pair property=C37 reach=done quick=100 thorough=300
// ENTRY: h_gw_large property=C37 reach=refused,largest quick=60 thorough=120
// ENTRY: h_gw_garbage property=C37 reach=accepted,refused,closed quick=150 thorough=900 defs=NB=14 tdefs=NB=20
// ENTRY: h_gw_elements property=C37 reach=accepted,refused quick=100 thorough=300
// ENTRY: h_gw_requests property=C38 reach=acked,timeout,lost,retried,late quick=150 thorough=900 defs=KR=2 tdefs=KR=3
// ENTRY: h_gw_incoming property=C38 reach=handled,noack,notification quick=100 thorough=600 defs=KR=3 tdefs=KR=4
// ENTRY: h_gw_two property=C38 reach=done quick=100 thorough=900 defs=PRE=1 tdefs=PRE=2
// ENTRY: h_gw_shutdown property=C38 reach=connected,message,dropped quick=150 thorough=900 defs=PRE=1 tdefs=PRE=2
// ENTRY: h_gw_nopeer property=C38 reach=never quick=100 thorough=600 defs=PRE=0 tdefs=PRE=1
// BOUND: messages with names of up to 3 characters and up to 2 elements, streams cut at up to 2 places; 14 (20) bytes of arbitrary payload; 2 (3) requests of up to 5 attempts each; shutdown at any time with 1 (2) preemptions
// ASSUME: names are not empty and hold no NUL character; a refused send leaves nothing of the message on the stream; the task container starts a thread per task and its Shutdown requests a stop and joins
#include "sym.h"
#include <sched.h>
#include <cstring>
#include <condition_variable>
#include <mutex>
#include <string>
#include <vector>
#include "score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h"
#include "score/os/socket.h"
#include "score/os/unistd.h"
using namespace score::mw::com::gateway; namespace com = score::mw::com; using com::impl::ServiceElementType; using Err = score::os::Error;
#ifndef CUTS
#define CUTS 1
#endif
#ifndef NB
#define NB 14
#endif
#ifndef KR
#define KR 2
#endif
#ifndef PRE
#define PRE 1
#endif
template <class T> using Ex = score::cpp::expected<T, Err>; using Bl = score::cpp::expected_blank<Err>;
static auto fail(int e) { return score::cpp::make_unexpected(Err::createFromErrno(e)); }
// ---- a byte stream between two framers
struct Wire { std::uint8_t b[4096]; int head{0}, tail{0}; int cuts{0}; bool eof{false}; int sent{0}; };
static Wire* g_w;
static std::size_t cut(std::size_t n) { if (n < 2 || g_w->cuts == 0) return n; switch (sym_choose(3, "cut")) { case 0: return n; case 1: g_w->cuts--; return 1; default: g_w->cuts--; return n - 1; } }
struct FSock : score::os::Socket {
  Ex<::ssize_t> sendto(const std::int32_t, const void* p, const std::size_t n, const MessageFlag, const sockaddr*, const socklen_t) const noexcept override { std::size_t k = cut(n); sym_assert(g_w->tail + k <= sizeof g_w->b, "harness: stream"); std::memcpy(g_w->b + g_w->tail, p, k); g_w->tail += static_cast<int>(k); g_w->sent++; return static_cast<::ssize_t>(k); }
  Ex<::ssize_t> recv(const std::int32_t, void* p, const std::size_t n, const MessageFlag) const noexcept override { std::size_t have = static_cast<std::size_t>(g_w->tail - g_w->head); if (have == 0) { sym_assert(g_w->eof, "the receiver waits for bytes that are not part of the message"); return 0; } std::size_t k = cut(n < have ? n : have); std::memcpy(p, g_w->b + g_w->head, k); g_w->head += static_cast<int>(k); return static_cast<::ssize_t>(k); }
};
static void install(Wire& w) { g_w = &w; score::os::Socket::set_testing_instance(*new FSock); }
static com::InstanceSpecifier spec(int i) { auto r = com::InstanceSpecifier::Create(std::string{i ? "abc/De_1" : "s"}); sym_assert(r.has_value(), "harness: specifier"); return std::move(r).value(); }
static const char* spec_s(int i) { return i ? "abc/De_1" : "s"; }
struct Name { char c[4]; std::size_t n; Name() : n(1 + sym_choose(3, "name length")) { for (std::size_t i = 0; i < n; i++) { c[i] = static_cast<char>(sym_u8("char")); sym_assume(c[i] != 0); } } std::string str() const { return std::string(c, n); } bool is(std::string_view v) const { if (v.size() != n) return false; bool e = true; for (std::size_t i = 0; i < n; i++) e &= v[i] == c[i]; return e; } };
// a message of any kind, and what has to come out at the other end
struct Item {
  std::uint64_t kind; int sp; std::uint32_t seq; std::uint32_t a{0}, b{0}; Name* n[2]{}; std::uint64_t size[2]{}, align[2]{}; std::size_t elems{0}; ServiceElementType et{ServiceElementType::INVALID};
  Item() : kind(sym_choose(7, "kind")), sp(static_cast<int>(sym_choose(2, "specifier"))), seq(sym_u32("sequence")) {}
  void send(MessageFramer& f) {
    auto go = [&](TransportMessage& m) { m.SetSequenceNumber(seq); auto r = f.SendMessage(3, m); sym_assert(r.has_value(), "a message cannot be sent although the connection takes every byte"); };
    switch (kind) {
      case 0: { elems = sym_choose(3, "elements"); a = sym_u32("control"); b = sym_u32("data"); char* text[2]{}; std::vector<com::EventInfo> v; for (std::size_t i = 0; i < elems; i++) { n[i] = new Name; size[i] = sym_u64("size"); align[i] = sym_u64("alignment"); text[i] = new char[4]; std::memcpy(text[i], n[i]->c, n[i]->n); v.push_back(com::EventInfo{std::string_view{text[i], n[i]->n}, com::DataTypeMetaInfo{size[i], align[i]}}); }
        { ProvideServiceRequest m{spec(sp), v, a, b}; go(m); } for (auto* t : text) delete[] t; break; }   // the sender's memory does not exist on the other side
      case 1: { OfferServiceRequest m{spec(sp)}; go(m); break; }
      case 2: { StopOfferServiceRequest m{spec(sp)}; go(m); break; }
      case 3: case 4: case 5: { n[0] = new Name; et = static_cast<ServiceElementType>(sym_u8("element type")); if (kind == 3) { RegisterNotificationRequest m{spec(sp), et, n[0]->str()}; go(m); } else if (kind == 4) { UnregisterNotificationRequest m{spec(sp), et, n[0]->str()}; go(m); } else { UpdateNotification m{spec(sp), et, n[0]->str()}; go(m); } break; }
      default: { a = sym_u32("acked"); AckResponse m{a}; go(m); break; }
    }
  }
  void check(TransportMessage* m) {
    sym_assert(m != nullptr, "a message is lost"); sym_assert(m->GetSequenceNumber() == seq, "a message arrives under another sequence number");
    static const MessageType t[] = {MessageType::kProvideServiceRequest, MessageType::kOfferServiceRequest, MessageType::kStopOfferServiceRequest, MessageType::kRegisterNotificationRequest, MessageType::kUnregisterNotificationRequest, MessageType::kUpdateNotification, MessageType::kAckResponse};
    sym_assert(m->GetType() == t[kind], "a message arrives as another kind");
    switch (kind) {
      case 0: { auto& q = dynamic_cast<ProvideServiceRequest&>(*m); sym_assert(q.GetInstanceSpecifier() == spec_s(sp), "service instance"); sym_assert(q.GetServiceElements().size() == elems, "number of elements"); for (std::size_t i = 0; i < elems; i++) { auto& e = q.GetServiceElements()[i]; sym_assert(n[i]->is(e.name), "the name of an element arrives changed"); sym_assert((e.data_type_meta_info.size == size[i]) & (e.data_type_meta_info.alignment == align[i]), "the type of an element arrives changed"); } sym_assert((q.GetShmControlSize() == a) & (q.GetShmDataSize() == b), "the memory sizes arrive changed"); sym_reach("provide"); break; }
      case 1: sym_assert(dynamic_cast<OfferServiceRequest&>(*m).GetInstanceSpecifier() == spec_s(sp), "service instance"); sym_reach("service"); break;
      case 2: sym_assert(dynamic_cast<StopOfferServiceRequest&>(*m).GetInstanceSpecifier() == spec_s(sp), "service instance"); break;
      case 3: case 4: case 5: { auto& q = dynamic_cast<ServiceElementMessage&>(*m); sym_assert(q.GetInstanceSpecifier() == spec_s(sp), "service instance"); sym_assert(n[0]->is(q.GetElementName()), "the name of an element arrives changed"); sym_assert(q.GetElementType() == et, "the kind of an element arrives changed"); sym_reach("element"); break; }
      default: sym_assert(dynamic_cast<AckResponse&>(*m).GetAckedSequence() == a, "an acknowledgement arrives for another request"); sym_reach("ack"); break;
    }
  }
};
extern "C" void h_gw_roundtrip() { Wire w; install(w); auto* tx = new MessageFramer; auto* rx = new MessageFramer; w.cuts = CUTS; Item i; i.send(*tx); w.cuts = CUTS; auto m = rx->ReceiveMessage(4); i.check(m.get()); sym_assert(w.head == w.tail, "bytes of a message stay behind"); w.eof = true; sym_assert(rx->ReceiveMessage(4) == nullptr, "a message out of a closed connection"); }
// a message stays what it is while the next one arrives
extern "C" void h_gw_pair() { Wire w; install(w); auto* tx = new MessageFramer; auto* rx = new MessageFramer; Item i, j; sym_assume((i.sp == 0) & (j.sp == 1)); i.send(*tx); j.send(*tx); auto m = rx->ReceiveMessage(4); auto q = rx->ReceiveMessage(4); i.check(m.get()); j.check(q.get()); sym_assert(w.head == w.tail, "bytes of a message stay behind"); sym_reach("done"); }
// what does not fit is refused as a whole, what just fits is sent
extern "C" void h_gw_large() {
  Wire w; install(w); auto* tx = new MessageFramer; auto* rx = new MessageFramer; bool fits = sym_choose(2, "fits") != 0; std::size_t room = MessageFramer::kMaxPayloadSize - 2 - sizeof(ServiceElementType) - 1; std::string name(fits ? room : room + 1, 'x'); name[0] = static_cast<char>(sym_u8("char")); sym_assume(name[0] != 0);
  UpdateNotification m{spec(0), ServiceElementType::EVENT, name}; auto r = tx->SendMessage(3, m); sym_assert(r.has_value() == fits, "largest message"); if (!fits) { sym_assert(w.sent == 0, "part of a refused message is sent"); sym_reach("refused"); return; }
  auto g = rx->ReceiveMessage(4); sym_assert(g != nullptr, "the largest message is lost"); auto& q = dynamic_cast<UpdateNotification&>(*g); sym_assert((q.GetElementName().size() == room) && (q.GetElementName()[0] == name[0]) && (q.GetElementName()[room - 1] == 'x'), "the largest message arrives changed"); sym_reach("largest"); }
static void header(Wire& w, std::uint8_t type, std::uint32_t seq, std::uint32_t size) { w.b[0] = type; std::memcpy(w.b + 1, &seq, 4); std::memcpy(w.b + 5, &size, 4); w.tail = 9; }
static bool known(std::uint8_t t) { return ((t >= 1) & (t <= 5)) | (t == 0x40) | (t == 0x80); }
// whatever arrives: a message or none, and nothing outside of it is touched
extern "C" void h_gw_garbage() {
  Wire w; install(w); auto* rx = new MessageFramer; std::uint8_t type = static_cast<std::uint8_t>(sym_concretize(sym_u8("type"))); std::uint32_t seq = sym_u32("sequence"); std::uint32_t size = NB;
  switch (sym_choose(4, "size")) { case 0: size = 0; break; case 1: size = sym_u32("size"); sym_assume(size > MessageFramer::kMaxPayloadSize); break; case 2: size = static_cast<std::uint32_t>(1 + sym_choose(6, "short")); break; default: break; }
  if (type == 1 && size != 0 && size <= NB) return;   // see h_gw_elements
  header(w, type, seq, size); bool closed = sym_choose(2, "closed") != 0; std::uint32_t put = size > NB ? 0 : size; if (closed) { w.eof = true; if (put == 0 || size > NB) w.tail = static_cast<int>(sym_choose(9, "header bytes")); else put = static_cast<std::uint32_t>(sym_choose(put, "payload bytes")); }
  std::uint8_t* pay = w.b + 9; if (w.tail == 9) { for (std::uint32_t i = 0; i < put; i++) { std::uint8_t v = sym_u8("byte"); pay[i] = v; } w.tail += static_cast<int>(put); }
  auto m = rx->ReceiveMessage(4);
  if (closed) { sym_assert(m == nullptr, "a message out of a part of one"); sym_reach("closed"); return; }
  if (size > MessageFramer::kMaxPayloadSize || !known(type)) { sym_assert(m == nullptr, "an invalid message is accepted"); if (size <= NB) sym_assert(w.head == w.tail, "bytes of a refused message stay behind"); sym_reach("refused"); return; }
  sym_assert(w.head == w.tail, "bytes stay behind");
  if (m == nullptr) { sym_assert(size != 0, "a message without payload is refused"); if (type == 0x80) sym_assert(size < 4, "an acknowledgement is refused"); sym_reach("refused"); return; }
  sym_assert((static_cast<std::uint8_t>(m->GetType()) == type) & (m->GetSequenceNumber() == seq), "header"); sym_reach("accepted"); if (size == 0) return;
  if (type == 0x80) { std::uint32_t a; std::memcpy(&a, pay, 4); sym_assert((size >= 4) && dynamic_cast<AckResponse&>(*m).GetAckedSequence() == a, "acknowledgement"); return; }
  const std::string& s = type <= 1 ? dynamic_cast<ProvideServiceRequest&>(*m).GetInstanceSpecifier() : type == 2 ? dynamic_cast<OfferServiceRequest&>(*m).GetInstanceSpecifier() : type == 3 ? dynamic_cast<StopOfferServiceRequest&>(*m).GetInstanceSpecifier() : dynamic_cast<ServiceElementMessage&>(*m).GetInstanceSpecifier();
  sym_assert((s.size() > 0) & (s.size() < size), "a text reaches beyond the message"); bool same = true; for (std::size_t i = 0; i < s.size(); i++) same &= (static_cast<std::uint8_t>(s[i]) == pay[i]) & (pay[i] != 0); sym_assert(same & (pay[s.size()] == 0), "a text is not what was received");
  if (type >= 4) { auto& e = dynamic_cast<ServiceElementMessage&>(*m); std::size_t at = s.size() + 1 + sizeof(ServiceElementType); auto& t = e.GetElementName(); sym_assert((t.size() > 0) & (at + t.size() < size), "a text reaches beyond the message"); bool eq = true; for (std::size_t i = 0; i < t.size(); i++) eq &= static_cast<std::uint8_t>(t[i]) == pay[at + i]; sym_assert(eq & (pay[at + t.size()] == 0), "a text is not what was received"); }
}
extern "C" void h_gw_elements() {
  Wire w; install(w); auto* rx = new MessageFramer; static const std::uint16_t counts[] = {0, 1, 2, 300, 65535}; std::uint16_t count = counts[sym_choose(5, "count")]; int have = static_cast<int>(sym_choose(3, "elements present")); bool whole = sym_choose(2, "complete") != 0;
  std::uint8_t* p = w.b + 9; int n = 0; p[n++] = sym_u8("char"); sym_assume(p[0] != 0); p[n++] = 0; std::memcpy(p + n, &count, 2); n += 2; std::uint8_t nm[2]{}; std::uint64_t sz[2]{}, al[2]{};
  for (int i = 0; i < have; i++) { nm[i] = sym_u8("name"); p[n++] = nm[i]; p[n++] = 0; sz[i] = sym_u64("size"); al[i] = sym_u64("alignment"); com::DataTypeMetaInfo d{sz[i], al[i]}; std::memcpy(p + n, &d, sizeof d); n += sizeof d; }
  std::uint32_t c = sym_u32("control"), d = sym_u32("data"); std::memcpy(p + n, &c, 4); std::memcpy(p + n + 4, &d, 4); n += whole ? 8 : static_cast<int>(sym_choose(8, "short")); header(w, 1, 7, static_cast<std::uint32_t>(n)); w.tail = 9 + n;
  auto m = rx->ReceiveMessage(4); sym_assert(w.head == w.tail, "bytes stay behind");
  if (m == nullptr) { bool good = whole & (count == have); for (int i = 0; i < have; i++) good &= nm[i] != 0; sym_assert(!good, "a proper message is refused"); sym_reach("refused"); return; }
  auto& q = dynamic_cast<ProvideServiceRequest&>(*m); sym_assert(q.GetServiceElements().size() == count, "number of elements"); sym_assert(count <= have, "an element out of nothing"); for (int i = 0; i < count; i++) { auto& e = q.GetServiceElements()[static_cast<std::size_t>(i)]; sym_assert((e.name.size() == 1) && (static_cast<std::uint8_t>(e.name[0]) == nm[i]), "the name of an element"); sym_assert((e.data_type_meta_info.size == sz[i]) & (e.data_type_meta_info.alignment == al[i]), "the type of an element"); } sym_reach("accepted");
}
// ---- the transport with its two threads; sockets and framer are stand-ins
struct Peer {
  std::mutex m; std::condition_variable cv; bool shut[16]{}; bool open[16]{}; int next{5}; int again{0}, accepts{0}, connects{0}; int max_connections{1}; int recv_fd{-1}, send_fd{-1};
  std::vector<std::unique_ptr<TransportMessage>> in; int busy{0};               // what the peer sent and was not received yet
  struct Out { MessageType t; std::uint32_t seq, acked; }; Out out[32]; int outs{0}; int sends{0}; std::uint32_t send_fail{0}; // bit i: the i-th send fails
  // threads switch at locks and condition variables only, so the harness's own state needs no lock of its own
  int waiting{0}; template <class C> void await(C c) { if (c()) return; std::unique_lock l{m}; while (!c()) { waiting++; cv.wait(l); waiting--; } } void wake() { if (waiting) { std::lock_guard l{m}; cv.notify_all(); } }
  std::shared_ptr<score::concurrency::Task> task[2]; score::cpp::stop_source src[2]; int tasks{0}; pthread_t id[2]{}; bool done[2]{}; bool joined{false};
};
static Peer* g_p;
static void spawn(score::concurrency::LongRunningThreadsContainer*, std::shared_ptr<score::concurrency::Task> t, score::cpp::stop_source s) {
  if (pthread_self() == g_p->id[0] || g_p->tasks == 2) { (*t)(s.get_token()); return; }                            // a connection attempt whose result the caller waits for
  g_p->src[g_p->tasks] = s; g_p->task[g_p->tasks] = std::move(t); g_p->tasks++; g_p->wake(); }
static void join(score::concurrency::LongRunningThreadsContainer*) { g_p->wake(); g_p->await([] { return (g_p->tasks < 1 || g_p->done[0]) && (g_p->tasks < 2 || g_p->done[1]); }); g_p->joined = true; }
static void thread(int i) { g_p->await([i] { return g_p->task[i] || g_p->joined; }); if (!g_p->task[i]) return; g_p->id[i] = pthread_self(); (*g_p->task[i])(g_p->src[i].get_token()); g_p->done[i] = true; g_p->wake(); }
struct TSock : score::os::Socket {
  Ex<std::int32_t> socket(const Domain, const std::int32_t, const std::int32_t) const noexcept override { int f = g_p->next++; sym_assert(f < 16, "harness: sockets"); g_p->open[f] = true; return f; }
  Bl setsockopt(const std::int32_t, const std::int32_t, const std::int32_t, const void*, const socklen_t) const noexcept override { return {}; }
  Bl bind(const std::int32_t, const sockaddr*, const socklen_t) const noexcept override { return {}; }
  Bl listen(const std::int32_t, const std::int32_t) const noexcept override { return {}; }
  Bl connect(const std::int32_t f, const sockaddr*, const socklen_t) const noexcept override { g_p->send_fd = f; return {}; }
  Ex<std::int32_t> accept(const std::int32_t f, sockaddr*, socklen_t*) const noexcept override { sym_assert(g_p->open[f], "accept on a closed socket"); if (g_p->accepts >= g_p->max_connections || g_p->shut[f]) { if (!g_p->shut[f] && ++g_p->again == 1) return fail(EAGAIN); g_p->await([f] { return g_p->shut[f]; }); g_p->await([] { return g_p->src[0].stop_requested(); }); return fail(EINVAL); } g_p->accepts++; int n = g_p->next++; sym_assert(n < 16, "harness: sockets"); g_p->open[n] = true; g_p->recv_fd = n; return n; }
};
struct TUni : score::os::Unistd { Bl close(const std::int32_t f) const noexcept override { sym_assert((f >= 5) & (f < 16) && g_p->open[f], "a socket is closed twice"); g_p->open[f] = false; return {}; } };
extern "C" int shutdown(int f, int) { g_p->shut[f] = true; g_p->wake(); return 0; }
extern "C" int fcntl(int, int, ...) { return 0; }
struct Framer : IMessageFramer {
  score::Result<void> SendMessage(std::int32_t f, const TransportMessage& m) override { int i = g_p->sends++; if (f < 0 || !g_p->open[f] || g_p->shut[f] || (g_p->send_fail >> i & 1)) return score::MakeUnexpected(TransportErrorc::kSendFailure); sym_assert(f == g_p->send_fd, "sent on another socket"); sym_assert(g_p->outs < 32, "harness: messages"); g_p->out[g_p->outs++] = {m.GetType(), m.GetSequenceNumber(), m.GetType() == MessageType::kAckResponse ? static_cast<const AckResponse&>(m).GetAckedSequence() : 0}; return {}; }
  std::unique_ptr<TransportMessage> ReceiveMessage(std::int32_t f) override { if (f < 0) return nullptr; sym_assert(f == g_p->recv_fd, "received from another socket"); g_p->busy = 0; g_p->wake(); g_p->await([f] { return !g_p->in.empty() || g_p->shut[f]; }); if (g_p->in.empty()) return nullptr; g_p->busy = 1; auto m = std::move(g_p->in.front()); g_p->in.erase(g_p->in.begin()); return m; }
};
static void push(std::unique_ptr<TransportMessage> m) { g_p->in.push_back(std::move(m)); g_p->busy = 1; g_p->wake(); }
static void drop() { g_p->shut[g_p->recv_fd] = g_p->shut[g_p->send_fd] = true; g_p->busy = 1; g_p->wake(); }
static void settle() { g_p->await([] { return !((g_p->busy || !g_p->in.empty()) && !g_p->done[0]); }); }  // everything the peer sent has been received
static void install(Peer& p) { g_p = &p; p.in.reserve(8); sym_clock_fixed(1000000000); score::concurrency::LongRunningThreadsContainer::stub_spawn = spawn; score::concurrency::LongRunningThreadsContainer::stub_join = join; score::os::Socket::set_testing_instance(*new TSock); score::os::Unistd::set_testing_instance(*new TUni); }
// waiting with a timeout: the harness decides what the peer does meanwhile; true: time is up
static bool (*g_wait)();
extern "C" int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec* t) { pthread_mutex_unlock(m); bool up = g_wait(); pthread_mutex_lock(m); if (up) sym_clock_fixed(static_cast<std::uint64_t>(t->tv_sec) * 1000000000u + static_cast<std::uint64_t>(t->tv_nsec)); return up ? ETIMEDOUT : 0; }
static HyperVisorSocketConfiguration config() { HyperVisorSocketConfiguration c; c.remote_ip_ = score::os::Ipv4Address{"1.2.3.4"}; c.local_port_ = 1; c.remote_port_ = 2; c.request_timeout_ms_ = 50; return c; }
static BidirectionalTransport* g_t;
struct Req { std::uint32_t seq{0}; bool acked{false}, lost{false}; int waits{0}; int first{0}; std::uint64_t at{0}, how{0}; }; static Req* g_q;   // the peer does something in the at-th attempt only
static std::uint32_t last_seq() { return g_p->out[g_p->outs - 1].seq; }
static bool env() { // what happens while a request waits
  Req& q = *g_q; q.seq = last_seq(); if (q.acked || q.lost) { sched_yield(); return false; } if (static_cast<std::uint64_t>(q.waits++) != q.at) return true;
  switch (q.how) {
    case 0: push(std::make_unique<AckResponse>(q.seq)); q.acked = true; if (q.waits > 1) sym_reach("late"); settle(); return false;
    case 1: { std::uint32_t s = sym_u32("other"); sym_assume(s != q.seq); push(std::make_unique<AckResponse>(s)); settle(); return true; }
    case 2: { int fd = g_p->recv_fd; drop(); q.lost = true; while (g_p->open[fd]) sched_yield(); return false; }
    default: { push(std::make_unique<AckResponse>(q.seq)); q.acked = true; return false; }   // on its way
  }
}
extern "C" void h_gw_requests() {
  auto* p = new Peer; install(*p); g_wait = env; auto* t = new BidirectionalTransport(config(), std::make_unique<Framer>(), std::make_unique<PendingRequestTracker>()); g_t = t; p->send_fail = static_cast<std::uint32_t>(sym_choose(3, "failing sends"));
  sym_par(0, 0, 0, [] { thread(0); }, [] { thread(1); }, [p, t] {
    OfferServiceRequest early{spec(0)}; sym_assert(!t->SendRequest(early).has_value() && p->sends == 0, "a request without a connection"); sym_assert(t->Setup().has_value(), "setup"); bool lost = false; std::uint32_t used[KR]{};
    for (int i = 0; i < KR; i++) { Req q; q.at = sym_choose(5, "attempt"); q.how = sym_choose(4, "peer"); g_q = &q; q.first = p->outs; int before = p->sends; OfferServiceRequest m{spec(0)}; auto r = t->SendRequest(m);
      if (lost) { sym_assert(!r.has_value() && p->sends == before, "a request without a connection"); continue; }
      sym_assert(r.has_value() == q.acked, q.acked ? "a request fails although it was acknowledged" : "a request succeeds that was not acknowledged"); int n = p->sends - before; sym_assert((n >= 1) & (n <= 5), "number of attempts"); if (n > 1) sym_reach("retried"); if (r.has_value()) sym_reach("acked"); else if (q.lost) { sym_reach("lost"); lost = true; } else { sym_assert(n == 5, "given up early"); sym_reach("timeout"); }
      for (int k = q.first; k < p->outs; k++) sym_assert((p->out[k].seq == p->out[q.first].seq) & (p->out[k].t == MessageType::kOfferServiceRequest), "a repeated request is another one"); used[i] = p->out[q.first].seq; for (int k = 0; k < i; k++) sym_assert(used[k] != used[i], "two requests under one number"); }
    t->Shutdown(); });
}
static int g_handled; static std::uint32_t g_got[8];
extern "C" void h_gw_incoming() {
  auto* p = new Peer; install(*p); g_wait = [] { return true; }; auto* t = new BidirectionalTransport(config(), std::make_unique<Framer>(), std::make_unique<PendingRequestTracker>()); bool handler = sym_choose(4, "no handler") != 0; g_handled = 0; if (handler) t->SetMessageHandler([](std::unique_ptr<TransportMessage> m) { sym_assert(g_handled < 8, "a message is handled twice"); g_got[g_handled++] = m->GetSequenceNumber(); });
  sym_par(0, 0, 0, [] { thread(0); }, [] { thread(1); }, [p, t, handler] {
    sym_assert(t->Setup().has_value(), "setup"); std::uint32_t want[KR]; int n = 0, acks = 0; std::uint32_t seqs[KR];
    for (int i = 0; i < KR; i++) { std::uint32_t s = sym_u32("sequence"); int before = p->outs; p->send_fail = 0; std::unique_ptr<TransportMessage> m; bool ack = true, bad = false;
      switch (sym_choose(4, "message")) { case 0: m = std::make_unique<StopOfferServiceRequest>(spec(0)); break; case 1: m = std::make_unique<UpdateNotification>(spec(0), ServiceElementType::EVENT, "e"); ack = false; break; case 2: m = std::make_unique<ProvideServiceRequest>(spec(1), std::vector<com::EventInfo>{}); bad = true; p->send_fail = 1u << p->sends; break; default: m = std::make_unique<RegisterNotificationRequest>(spec(1), ServiceElementType::EVENT, "e"); break; }
      m->SetSequenceNumber(s); push(std::move(m)); settle(); if (!handler) { sym_assert(p->outs == before, "a dropped message is acknowledged"); continue; }
      if (bad) { sym_assert(p->outs == before, "acknowledgement"); sym_reach("noack"); continue; }
      if (ack) { sym_assert((p->outs == before + 1) && (p->out[before].t == MessageType::kAckResponse) && (p->out[before].acked == s), "a request is not acknowledged under its number"); acks++; } else { sym_assert(p->outs == before, "a notification is acknowledged"); sym_reach("notification"); }
      want[n++] = s; }
    for (int i = 0; i < 4 && g_handled < n; i++) sched_yield();
    sym_assert(g_handled == n, "a message is not handled, or handled twice"); for (int i = 0; i < n; i++) sym_assert(g_got[i] == want[i], "messages are handled out of order"); if (n) sym_reach("handled"); (void)seqs; (void)acks;
    t->Shutdown(); });
}
// two requests at a time: each needs its own acknowledgement
static bool g_acks[2]; static std::uint32_t g_num[2];
extern "C" void h_gw_two() {
  auto* p = new Peer; install(*p); auto* t = new PendingRequestTracker; static std::atomic<bool> up{true}; g_acks[0] = sym_choose(2, "first") != 0; g_acks[1] = sym_choose(2, "second") != 0; static int idle; idle = 0; g_wait = [] { sched_yield(); return ++idle > 3; };
  static std::atomic<int> sent[2]; sent[0] = sent[1] = 0; bool ok[2]{}; auto req = [&](int i) { std::uint32_t s = t->GetNextSequenceNumber(); t->RegisterPendingRequest(s); g_num[i] = s; sent[i] = 1; ok[i] = t->WaitForAck(s, std::chrono::milliseconds(50), up).has_value(); t->ErasePendingRequest(s); sym_assert(!t->HasPendingRequest(s), "a finished request stays pending"); };
  sym_par(PRE, 0, 0, [&] { req(0); }, [&] { req(1); }, [&] { for (int i = 0; i < 2; i++) if (g_acks[i] && sent[i] == 1) { t->Acknowledge(g_num[i]); sent[i] = 2; } });
  for (int i = 0; i < 2; i++) if (ok[i]) sym_assert(sent[i] == 2, "a request succeeds that was not acknowledged"); sym_assert(g_num[0] != g_num[1], "two requests under one number"); sym_reach("done");
}
// shutdown at any time ends both threads: while connected, while a message is being handled, while the connection is lost or made again
static void ended(Peer* p, BidirectionalTransport* t) { sym_assert(p->done[0] & p->done[1], "a thread of the transport never ends"); delete t; for (int f = 5; f < p->next; f++) sym_assert(!p->open[f], "a socket stays open"); }
extern "C" void h_gw_shutdown() {
  auto* p = new Peer; install(*p); g_wait = [] { return true; }; p->max_connections = 2; auto* t = new BidirectionalTransport(config(), std::make_unique<Framer>(), std::make_unique<PendingRequestTracker>()); t->SetMessageHandler([](std::unique_ptr<TransportMessage>) {}); sym_shared(t, sizeof *t, 1); std::uint64_t what = sym_choose(3, "before");
  sym_par(PRE, 0, 0, [] { thread(0); }, [] { thread(1); }, [&] { sym_assert(t->Setup().has_value(), "setup"); if (what == 1) { push(std::make_unique<UpdateNotification>(spec(0), ServiceElementType::EVENT, "e")); sym_reach("message"); } if (what == 2) { drop(); sched_yield(); sym_reach("dropped"); } t->Shutdown(); });
  ended(p, t); sym_reach("connected"); }
// shutdown ends a setup that finds no peer
extern "C" void h_gw_nopeer() {
  auto* p = new Peer; install(*p); g_wait = [] { return true; }; p->max_connections = 0; auto* t = new BidirectionalTransport(config(), std::make_unique<Framer>(), std::make_unique<PendingRequestTracker>()); bool ready = false; sym_shared(t, sizeof *t, 1);
  sym_par(PRE, 0, 0, [] { thread(0); }, [] { thread(1); }, [&] { sym_assert(!t->Setup().has_value(), "a setup without a peer succeeds"); ready = true; }, [&] { p->await([p] { return p->tasks == 2; }); t->Shutdown(); });
  sym_assert(ready, "setup never ends"); ended(p, t); sym_reach("never"); }
