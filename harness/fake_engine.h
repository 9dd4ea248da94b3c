// In-memory ISharedResourceEngine: the real timed command queue, one endpoint, a recorded wire.
#pragma once
#include "sym.h"
#include <condition_variable>
#include <cstring>
#include <mutex>
#include "score/message_passing/client_connection.h"
#include "score/message_passing/client_server_communication.h"
#include "score/message_passing/timed_command_queue.h"
namespace fe {
using namespace score::message_passing;
using score::cpp::span; using Err = score::os::Error; using Bytes = span<const std::uint8_t>;
struct Frame { std::uint8_t code{0}; std::uint32_t n{0}; std::uint8_t b[4]{}; int fd{0}; };
struct Engine : ISharedResourceEngine {
  static constexpr int kMax = 12;
  detail::TimedCommandQueue q; LoggingCallback logger{}; std::mutex m; std::condition_variable cv; int engine_thread = -1; bool on_thread = false, threaded = false;
  Frame wire[kMax]; int wires = 0; PosixEndpointEntry* ep = nullptr; int open_fd = -1, opens = 0, closes = 0, enq = 0; bool wake = false; int open_err = 0, send_err = 0; TimePoint last_until{}, latest{}; bool peer_gone = false, rx_valid = false; std::uint8_t rx_code = 0; std::uint8_t rx[4]{}; std::uint32_t rx_n = 0; int rx_err = 0;
  void (*on_send)(Engine&) = nullptr; void (*on_open)(Engine&) = nullptr; bool symbolic_faults = false, failed = false; bool tried[32]{};
  score::cpp::pmr::memory_resource* GetMemoryResource() noexcept override { return score::cpp::pmr::get_default_resource(); }
  const LoggingCallback& GetLogger() & noexcept override { return logger; }
  bool IsOnCallbackThread() const noexcept override { return threaded ? sym_thread_id() == engine_thread : on_thread; }
  score::cpp::expected<std::int32_t, Err> TryOpenClientConnection(std::string_view) noexcept override { if (on_open) on_open(*this); if (threaded) sym_yield(); if (open_err != 0) return score::cpp::make_unexpected(Err::createFromErrno(open_err)); sym_assert(open_fd == -1, "connected while the old connection is still open"); open_fd = 5 + opens++; return open_fd; }
  void CloseClientConnection(std::int32_t fd) noexcept override { sym_assert((fd == open_fd) & (fd != -1), "a connection is closed that is not open"); sym_assert(ep == nullptr, "closed while still polled"); open_fd = -1; closes++; }
  score::cpp::expected_blank<Err> SendProtocolMessage(const std::int32_t fd, std::uint8_t code, const Bytes msg) noexcept override {
    if (on_send) on_send(*this); if (threaded) sym_yield();
    if (msg.size() != 0 && msg.data()[0] < 32) tried[msg.data()[0]] = true; int e = send_err; if (symbolic_faults && sym_bool("send_fails")) e = EIO; if (fd != open_fd || fd == -1) e = EBADF; if (peer_gone && e == 0) e = EPIPE;
    if (e != 0) { failed = true; return score::cpp::make_unexpected(Err::createFromErrno(e)); }
    sym_assert(wires < kMax, "harness: wire"); Frame& f = wire[wires++]; f.code = code; f.fd = fd; f.n = msg.size(); sym_assert(f.n <= 4, "more bytes than were sent"); if (f.n) std::memcpy(f.b, msg.data(), f.n); if (threaded) { std::lock_guard l{m}; cv.notify_all(); } return {}; }
  score::cpp::expected<Bytes, Err> ReceiveProtocolMessage(const std::int32_t fd, std::uint8_t& code) noexcept override { sym_assert(fd == open_fd, "received from a closed connection"); if (rx_err != 0) return score::cpp::make_unexpected(Err::createFromErrno(rx_err)); code = rx_code; return Bytes{rx, static_cast<Bytes::size_type>(rx_n)}; }
  void EnqueueCommand(CommandQueueEntry& e, const TimePoint until, CommandCallback c, const void* const owner) noexcept override { enq++; last_until = until; if (until > latest) latest = until; q.RegisterTimedEntry(e, until, std::move(c), owner); if (threaded) { std::lock_guard l{m}; wake = true; cv.notify_all(); } }
  void RegisterPosixEndpoint(PosixEndpointEntry& e) noexcept override { sym_assert(IsOnCallbackThread(), "registered off the engine thread"); sym_assert(ep == nullptr, "registered twice"); sym_assert(e.fd == open_fd, "registered with a file descriptor that is not open"); ep = &e; }
  void UnregisterPosixEndpoint(PosixEndpointEntry& e) noexcept override { if (ep == &e) drop(); }
  void drop() { auto* e = ep; ep = nullptr; if (!e->disconnect.empty()) e->disconnect(); }
  void CleanUpOwner(const void* const owner) noexcept override { if (!threaded && !on_thread) { as_engine([&] { CleanUpOwner(owner); }); return; } sym_assert(IsOnCallbackThread(), "harness: cleanup off thread"); if (ep != nullptr && ep->owner == owner) drop(); q.CleanUpOwner(owner); }
  // the engine thread's steps
  template <class F> void as_engine(F f) { bool o = on_thread; on_thread = true; f(); on_thread = o; }
  void run_commands(TimePoint now = TimePoint{}) { as_engine([&] { (void)q.ProcessQueue(now); }); }
  std::int64_t now = 1000000000; void run_timers() { auto t = latest.time_since_epoch().count(); if (t > now) now = t; sym_clock_fixed(now); run_commands(TimePoint{std::chrono::nanoseconds{now}}); } // time goes by until everything queued is due
  bool input(std::uint8_t code, const std::uint8_t* b, std::uint32_t n) { if (ep == nullptr) return false; rx_err = 0; rx_code = code; rx_n = n; if (n) std::memcpy(rx, b, n); as_engine([&] { ep->input(); }); return true; }
  bool input_error(int e) { if (ep == nullptr) return false; rx_err = e; as_engine([&] { ep->input(); }); return true; }
};
constexpr std::uint8_t kReq = score::cpp::to_underlying(detail::ClientToServer::REQUEST), kSnd = score::cpp::to_underlying(detail::ClientToServer::SEND), kRep = score::cpp::to_underlying(detail::ServerToClient::REPLY), kNot = score::cpp::to_underlying(detail::ServerToClient::NOTIFY);
}
