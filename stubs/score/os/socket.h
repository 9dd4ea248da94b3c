#pragma once
#include "score/os/errno.h"
#include "score/memory.hpp"
#include "score/memory_resource.hpp"
#include <sys/socket.h>
#include <memory>
namespace score { namespace os {
class Socket : public ObjectSeam<Socket> {
 public:
  enum class Domain : std::int32_t { kUnix = AF_UNIX, kIPv4 = AF_INET, kIPv6 = AF_INET6, kRoute = 16 };
  enum class MessageFlag : std::int32_t { kNone = 0, kPeek = MSG_PEEK, kWaitAll = MSG_WAITALL, kDontWait = MSG_DONTWAIT, kOutOfBand = MSG_OOB, kTruncate = MSG_TRUNC, kErrorQueue = MSG_ERRQUEUE, kNoSignal = MSG_NOSIGNAL };
  virtual score::cpp::expected<std::int32_t, Error> socket(const Domain, const std::int32_t, const std::int32_t) const noexcept { return bad(); }
  virtual score::cpp::expected_blank<Error> bind(const std::int32_t, const struct sockaddr*, const socklen_t) const noexcept { return bad(); }
  virtual score::cpp::expected_blank<Error> listen(const std::int32_t, const std::int32_t) const noexcept { return bad(); }
  virtual score::cpp::expected<std::int32_t, Error> accept(const std::int32_t, struct sockaddr*, socklen_t*) const noexcept { return bad(); }
  virtual score::cpp::expected_blank<Error> connect(const std::int32_t, const struct sockaddr*, const socklen_t) const noexcept { return bad(); }
  virtual score::cpp::expected_blank<Error> setsockopt(const std::int32_t, const std::int32_t, const std::int32_t, const void*, const socklen_t) const noexcept { return bad(); }
  virtual score::cpp::expected_blank<Error> getsockopt(const std::int32_t, const std::int32_t, const std::int32_t, void*, socklen_t*) const noexcept { return bad(); }
  virtual score::cpp::expected<::ssize_t, Error> sendto(const std::int32_t, const void*, const std::size_t, const MessageFlag, const struct sockaddr*, const socklen_t) const noexcept { return bad(); }
  virtual score::cpp::expected<::ssize_t, Error> send(const std::int32_t, const void*, const std::size_t, const MessageFlag) const noexcept { return bad(); }
  virtual score::cpp::expected<::ssize_t, Error> recv(const std::int32_t, void*, const std::size_t, const MessageFlag) const noexcept { return bad(); }
  virtual score::cpp::expected<::ssize_t, Error> recvmsg(const std::int32_t, struct msghdr*, const MessageFlag) const noexcept { return bad(); }
  virtual score::cpp::expected<::ssize_t, Error> sendmsg(const std::int32_t, const struct msghdr*, const MessageFlag) const noexcept { return bad(); }
  static inline score::cpp::pmr::unique_ptr<Socket> (*stub_factory)(score::cpp::pmr::memory_resource*) = nullptr;
  static score::cpp::pmr::unique_ptr<Socket> Default(score::cpp::pmr::memory_resource* r) noexcept { return stub_factory != nullptr ? stub_factory(r) : score::cpp::pmr::make_unique<Socket>(r); }
  virtual ~Socket() = default;
 private:
  static score::cpp::unexpected<Error> bad() { return score::cpp::make_unexpected(Error::createFromErrno(EBADF)); }
};
inline Socket::MessageFlag operator|(Socket::MessageFlag a, Socket::MessageFlag b) { return static_cast<Socket::MessageFlag>(static_cast<std::int32_t>(a) | static_cast<std::int32_t>(b)); }
} }
