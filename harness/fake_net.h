// In-memory stream sockets and poll for the real UnixDomainEngine and UnixDomainServer. The engine's thread runs where the harness lets it.
#pragma once
#include "sym.h"
#include <cstring>
#include <new>
#include <thread>
#include <vector>
#include "score/message_passing/client_server_communication.h"
#include "score/message_passing/unix_domain/unix_domain_engine.h"
#include "score/message_passing/unix_domain/unix_domain_server.h"
namespace fn {
using namespace score::message_passing;
using score::cpp::span; using Err = score::os::Error; using Bytes = span<const std::uint8_t>; using Clk = std::chrono::steady_clock;
template <class T> using Ex = score::cpp::expected<T, Err>; using Bl = score::cpp::expected_blank<Err>;
inline auto fail(int e) { return score::cpp::make_unexpected(Err::createFromErrno(e)); }
constexpr int kPipeR = 3, kPipeW = 4, kListen = 5, kFirst = 8, kFds = 24, kRing = 64;
struct Stream { std::uint8_t b[kRing]; int head{0}, tail{0}; bool eof{false}; int n() const { return tail - head; } };
struct Sock { bool open{false}; Stream in, out; };           // in: what the peer sent us; out: what we sent
struct Net {
  Sock s[kFds]; bool pipe_open{false}; std::uint8_t pipe[16]; int pipe_n{0}; bool listening{false}, bound{false}, server_open{false}; int pending{0}; ucred cred[kFds]; int next_fd{kFirst};
  int socket_err{0}, bind_err{0}, listen_err{0}, accept_err{0}, peer_err{0}, send_err{0}; int closes[kFds]{}; int server_closes{0};
  void (*on_poll)(pollfd*, nfds_t, int){nullptr}; int polled{0};
  void (*on_sendmsg)(int, const msghdr*){nullptr}; Ex<::ssize_t> (*on_recvmsg)(int, msghdr*){nullptr};
};
inline Net* g;
struct FSock : score::os::Socket {
  Ex<std::int32_t> socket(const Domain, const std::int32_t, const std::int32_t) const noexcept override { if (g->socket_err) return fail(g->socket_err); sym_assert(!g->server_open, "a second listening socket"); g->server_open = true; g->server_closes = 0; return kListen; }
  Bl bind(const std::int32_t fd, const sockaddr*, const socklen_t) const noexcept override { sym_assert((fd == kListen) & g->server_open, "bind of a closed socket"); if (g->bind_err) return fail(g->bind_err); g->bound = true; return {}; }
  Bl listen(const std::int32_t fd, const std::int32_t) const noexcept override { sym_assert((fd == kListen) & g->server_open & g->bound, "listen on a socket that is not bound"); if (g->listen_err) return fail(g->listen_err); g->listening = true; return {}; }
  Ex<std::int32_t> accept(const std::int32_t fd, sockaddr*, socklen_t*) const noexcept override { sym_assert((fd == kListen) & g->server_open & g->listening, "accept on a socket that is not listening"); if (g->accept_err) { int x = g->accept_err; g->accept_err = 0; return fail(x); } sym_assert(g->pending > 0, "the engine thread blocks in accept"); g->pending--; int n = g->next_fd++; sym_assert(n < kFds, "harness: descriptors"); g->s[n].open = true; return n; }
  Bl getsockopt(const std::int32_t fd, const std::int32_t l, const std::int32_t o, void* v, socklen_t* n) const noexcept override { sym_assert((l == SOL_SOCKET) & (o == SO_PEERCRED), "harness: option"); sym_assert(g->s[fd].open & (*n == sizeof(ucred)), "option of a closed socket"); if (g->peer_err) return fail(g->peer_err); g->cred[fd].pid = static_cast<pid_t>(sym_u32("pid")); g->cred[fd].uid = sym_u32("uid"); g->cred[fd].gid = sym_u32("gid"); std::memcpy(v, &g->cred[fd], sizeof(ucred)); return {}; }
  Ex<::ssize_t> sendmsg(const std::int32_t fd, const msghdr* m, const MessageFlag) const noexcept override {
    if (g->on_sendmsg) g->on_sendmsg(fd, m);
    sym_assert((fd >= kFirst) & (fd < kFds), "sent to no connection"); if (g->send_err) return fail(g->send_err); if (!g->s[fd].open) return fail(EBADF);
    Stream& o = g->s[fd].out; ::ssize_t t = 0; for (std::size_t i = 0; i < m->msg_iovlen; i++) { int k = static_cast<int>(m->msg_iov[i].iov_len); sym_assert(o.tail + k <= kRing, "harness: stream"); if (k) std::memcpy(o.b + o.tail, m->msg_iov[i].iov_base, k); o.tail += k; t += k; } return t; }
  Ex<::ssize_t> recvmsg(const std::int32_t fd, msghdr* m, const MessageFlag f) const noexcept override {
    if (g->on_recvmsg) return g->on_recvmsg(fd, m);
    sym_assert((fd >= kFirst) & (fd < kFds) && g->s[fd].open, "received from a connection that is not open"); Stream& o = g->s[fd].in; ::ssize_t t = 0; bool all = (static_cast<int>(f) & static_cast<int>(MessageFlag::kWaitAll)) != 0;
    for (std::size_t i = 0; i < m->msg_iovlen; i++) { int want = static_cast<int>(m->msg_iov[i].iov_len), k = o.n() < want ? o.n() : want; if (k) std::memcpy(m->msg_iov[i].iov_base, o.b + o.head, k); o.head += k; t += k; if (k < want) { sym_assert(o.eof | (!all & (t > 0)), "the engine thread waits for bytes that nobody sends"); break; } } return t; }
};
inline void (*g_on_write)();
struct FUni : score::os::Unistd {
  Bl close(const std::int32_t fd) const noexcept override { if (fd == kListen) { sym_assert(g->server_open, "the listening socket is closed twice"); g->server_open = g->listening = g->bound = false; g->server_closes++; return {}; } if (fd == kPipeR || fd == kPipeW) return {}; sym_assert((fd >= kFirst) & (fd < kFds) && g->s[fd].open, "a descriptor is closed that is not open"); g->s[fd].open = false; g->closes[fd]++; return {}; }
  Ex<std::int32_t> pipe(std::int32_t p[2]) const noexcept override { p[0] = kPipeR; p[1] = kPipeW; g->pipe_open = true; return 0; }
  Ex<::ssize_t> write(const std::int32_t fd, const void* b, const std::size_t n) const noexcept override { sym_assert((fd == kPipeW) & (n == 1) & (g->pipe_n < 16), "harness: pipe"); g->pipe[g->pipe_n++] = *static_cast<const std::uint8_t*>(b); if (g_on_write) g_on_write(); return 1; }
  Ex<::ssize_t> read(const std::int32_t fd, void* b, const std::size_t n) const noexcept override { sym_assert((fd == kPipeR) & (n == 1) & (g->pipe_n > 0), "the engine thread waits for a command that nobody sends"); *static_cast<std::uint8_t*>(b) = g->pipe[0]; for (int i = 1; i < g->pipe_n; i++) g->pipe[i - 1] = g->pipe[i]; g->pipe_n--; return 1; }
};
struct FPoll : score::os::SysPoll {
  Ex<std::int32_t> poll(pollfd* p, const nfds_t n, const std::int32_t timeout) const noexcept override;
};
// one round of the engine thread: what is readable, as the kernel sees it; stop: the harness lets go of the thread
inline int ready(pollfd* p, nfds_t n) { int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; int fd = p[i].fd; if (fd < 0) continue; bool r; if (fd == kPipeR) r = g->pipe_n > 0; else if (fd == kListen) { sym_assert(g->server_open, "a closed descriptor is polled"); r = (g->pending > 0) | (g->accept_err != 0); } else { sym_assert((fd >= kFirst) & (fd < kFds) && g->s[fd].open, "a closed descriptor is polled"); r = (g->s[fd].in.n() > 0) | g->s[fd].in.eof; } if (r && (p[i].events & POLLIN)) { p[i].revents = POLLIN; k++; } } return k; }
inline int g_tid; inline void (*g_join)(); inline void* g_state; inline void (*g_run)(void*);   // the engine's thread function
inline Ex<std::int32_t> FPoll::poll(pollfd* p, const nfds_t n, const std::int32_t timeout) const noexcept { g->polled++; g->on_poll(p, n, timeout); return ready(p, n); }
inline void quit() { sym_assert(g->pipe_n < 16, "harness: pipe"); g->pipe[g->pipe_n++] = 0; }
inline void install(Net& n) { g = &n; score::os::Socket::stub_factory = [](score::cpp::pmr::memory_resource* r) -> score::cpp::pmr::unique_ptr<score::os::Socket> { return score::cpp::pmr::make_unique<FSock>(r); }; score::os::SysPoll::stub_factory = [](score::cpp::pmr::memory_resource* r) -> score::cpp::pmr::unique_ptr<score::os::SysPoll> { return score::cpp::pmr::make_unique<FPoll>(r); }; score::os::Unistd::stub_factory = [](score::cpp::pmr::memory_resource* r) -> score::cpp::pmr::unique_ptr<score::os::Unistd> { return score::cpp::pmr::make_unique<FUni>(r); }; }
template <class F> void on_engine(UnixDomainEngine& e, F f) { ISharedResourceEngine::CommandQueueEntry c; sym_clock_fixed(1000000000); e.EnqueueCommand(c, {}, [&f](auto) noexcept { f(); quit(); }, nullptr); g->on_poll = [](pollfd*, nfds_t, int) {}; g_run(g_state); }
}
#ifndef FN_NO_THREAD
void std::thread::_M_start_thread(_State_ptr s, void (*)()) { fn::g_state = s.release(); fn::g_run = [](void* p) { auto* t = static_cast<_State*>(p); t->_M_run(); }; _M_id = std::thread::id(fn::g_tid ? static_cast<std::thread::native_handle_type>(fn::g_tid) : pthread_self()); }
void std::thread::join() { if (fn::g_join) fn::g_join(); _M_id = std::thread::id(); }
#endif
