// SOURCES: @mem score/message_passing/unix_domain/unix_domain_engine.cpp score/message_passing/unix_domain/unix_domain_server.cpp score/message_passing/timed_command_queue.cpp score/message_passing/log/log.cpp
// ENTRY: h_wire_stream property=C27 reach=all,toolong quick=100 thorough=900 defs=K=4 tdefs=K=5
// ENTRY: h_wire_cut property=C27 reach=cut,whole quick=100 thorough=900
// ENTRY: h_wire_size property=C27 reach=sent,refused quick=60 thorough=120
// ENTRY: h_wire_recv property=C27 reach=ok,toolong quick=60 thorough=120
// BOUND: 4 (5) messages of 0 to 5 bytes against receive limits of 0 to 4 bytes; 2 messages of up to 3 bytes cut at every byte; one frame of any length up to 2^40; every announced length against buffers of 0, 1, 255, 65535, 65536 and 65600 bytes
// ASSUME: a blocking sendmsg() sends everything or fails, recvmsg() with MSG_WAITALL returns less than asked for only at the end of the stream
#include "fake_net.h"
using namespace fn;
#ifndef K
#define K 3
#endif
struct Rx { ISharedResourceEngine::PosixEndpointEntry ep; };
static void prepare(UnixDomainEngine& e, Rx& r, int fd, std::uint32_t max) { g->s[fd].open = true; r.ep.fd = fd; r.ep.max_receive_size = max; e.RegisterPosixEndpoint(r.ep); }
static auto* mr() { return score::cpp::pmr::get_default_resource(); }
extern "C" void h_wire_stream() {
  Net n; install(n); UnixDomainEngine e{mr(), {}}; std::uint32_t max = sym_choose(5, "max");
  on_engine(e, [&] {
    Rx r; prepare(e, r, 8, max); n.s[9].open = true; std::uint8_t b[K][6], code[K]; int sz[K];
    for (int i = 0; i < K; i++) { sz[i] = sym_choose(6, "size"); sym_make(b[i], 6, "data"); code[i] = sym_u8("code"); auto x = e.SendProtocolMessage(9, code[i], Bytes{b[i], static_cast<Bytes::size_type>(sz[i])}); sym_assert(x.has_value(), "sending fails although nothing is wrong"); }
    std::memcpy(n.s[8].in.b, n.s[9].out.b, n.s[9].out.tail); n.s[8].in.tail = n.s[9].out.tail; bool all = true;
    for (int i = 0; i < K && all; i++) { std::uint8_t c = 0; auto m = e.ReceiveProtocolMessage(8, c); if (sz[i] > static_cast<int>(max)) { sym_assert(!m.has_value() && m.error().GetOsDependentErrorCode() == EMSGSIZE, "a message that is too long is not reported"); sym_reach("toolong"); all = false; break; }
      sym_assert(m.has_value(), "a message that was sent is not received"); bool eq = (static_cast<int>(m->size()) == sz[i]) & (c == code[i]); sym_assert(eq, "a message arrives with another size or kind"); for (int k = 0; k < sz[i]; k++) eq &= m->data()[k] == b[i][k]; sym_assert(eq, "a message arrives changed"); }
    if (all) { sym_assert(n.s[8].in.n() == 0, "bytes are left over"); n.s[8].in.eof = true; std::uint8_t c = 0; auto m = e.ReceiveProtocolMessage(8, c); sym_assert(!m.has_value(), "a message nobody sent"); sym_reach("all"); }
    e.UnregisterPosixEndpoint(r.ep);
  });
}
extern "C" void h_wire_cut() {
  Net n; install(n); UnixDomainEngine e{mr(), {}};
  on_engine(e, [&] {
    Rx r; prepare(e, r, 8, 4); n.s[9].open = true; std::uint8_t b[2][4], code[2]; int sz[2], end[2];
    for (int i = 0; i < 2; i++) { sz[i] = sym_choose(4, "size"); sym_make(b[i], 4, "data"); code[i] = sym_u8("code"); (void)e.SendProtocolMessage(9, code[i], Bytes{b[i], static_cast<Bytes::size_type>(sz[i])}); end[i] = n.s[9].out.tail; }
    int cut = sym_choose(end[1] + 1, "cut"); std::memcpy(n.s[8].in.b, n.s[9].out.b, n.s[9].out.tail); n.s[8].in.tail = cut; n.s[8].in.eof = true;
    for (int i = 0; i < 2; i++) { std::uint8_t c = 0; auto m = e.ReceiveProtocolMessage(8, c); if (cut < end[i]) { sym_assert(!m.has_value(), "a message that did not arrive completely is delivered"); sym_reach("cut"); break; } sym_assert(m.has_value(), "a message that arrived completely is lost"); bool eq = (static_cast<int>(m->size()) == sz[i]) & (c == code[i]); sym_assert(eq, "another message"); for (int k = 0; k < sz[i]; k++) eq &= m->data()[k] == b[i][k]; sym_assert(eq, "changed"); if (i == 1) sym_reach("whole"); }
    e.UnregisterPosixEndpoint(r.ep);
  });
}
static std::uint64_t g_payload, g_header; static int g_sent; static std::uint32_t g_max; static std::uint16_t g_size; static int g_calls; static std::size_t g_len; static std::uint32_t g_other;
extern "C" void h_wire_size() { // any size: what the header announces is what follows
  Net n; install(n); UnixDomainEngine e{mr(), {}}; g_sent = 0; n.s[9].open = true; n.send_err = EIO;
  n.on_sendmsg = [](int, const msghdr* m) { g_sent++; sym_assert(m->msg_iovlen == 3, "harness: frame layout"); std::uint16_t h; std::memcpy(&h, m->msg_iov[1].iov_base, 2); g_header = h; g_payload = m->msg_iov[2].iov_len; sym_assert((m->msg_iov[0].iov_len == 1) & (m->msg_iov[1].iov_len == 2), "frame layout"); sym_assert(g_header == g_payload, "the announced size differs from what is sent"); };
  std::uint8_t b[1]; std::uint64_t sz = sym_u64("size"); sym_assume(sz < (1ull << 40)); auto x = e.SendProtocolMessage(9, 1, Bytes{b, sz}); sym_assert(!x.has_value(), "a failure to send is not reported");
  if (g_sent) { sym_assert(x.error().GetOsDependentErrorCode() == EIO, "another error is reported"); sym_reach("sent"); } else { sym_assert(sz > 65535, "a message that fits is not sent"); sym_assert(x.error().GetOsDependentErrorCode() == EMSGSIZE, "a message that is too long is refused for another reason"); sym_reach("refused"); }
}
extern "C" void h_wire_recv() { // any announced size against several buffers
  static const std::uint32_t kMax[] = {0, 1, 255, 65535, 65536, 65600}; Net n; install(n); UnixDomainEngine e{mr(), {}}; g_max = kMax[sym_choose(6, "max")]; g_size = sym_u16("size"); g_calls = 0;
  const std::uint32_t other = kMax[sym_choose(6, "other")]; const bool before = sym_choose(2, "order"); g_other = other;
  on_engine(e, [&] {
    Rx r, r2; if (before) prepare(e, r2, 7, other); prepare(e, r, 8, g_max); if (!before) prepare(e, r2, 7, other); // the buffer is shared
    n.on_recvmsg = [](int, msghdr* m) -> Ex<::ssize_t> { if (g_calls++ == 0) { *static_cast<std::uint8_t*>(m->msg_iov[0].iov_base) = 7; std::memcpy(m->msg_iov[1].iov_base, &g_size, 2); return 3; } g_len = m->msg_iov[0].iov_len; sym_assert((m->msg_iovlen == 1) & (g_len == g_size), "another number of bytes is received than announced"); sym_assert(g_len <= g_max || g_len <= g_other, "received beyond the end of the buffer"); return static_cast<::ssize_t>(g_len); };
    std::uint8_t c = 0; auto m = e.ReceiveProtocolMessage(8, c);
    if (m.has_value()) { sym_assert(g_size <= g_max || g_size <= g_other, "longer than allowed"); sym_assert((m->size() == g_size) & (c == 7) & (g_calls == (g_size ? 2 : 1)), "size"); sym_reach("ok"); } else { sym_assert(g_size > g_max, "a message that fits is refused"); sym_assert(m.error().GetOsDependentErrorCode() == EMSGSIZE, "error"); sym_reach("toolong"); }
    e.UnregisterPosixEndpoint(r.ep); e.UnregisterPosixEndpoint(r2.ep);
  });
}
