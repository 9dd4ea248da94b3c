#pragma once
#include "score/os/utils/acl/i_access_control_list.h"
namespace score { namespace os {
class AccessControlList : public IAccessControlList {
 public:
  explicit AccessControlList(FileDescriptor fd) : fd_{fd} {}
  score::cpp::expected_blank<Error> AllowUser(const UserIdentifier user, const Acl::Permission p) override { if (hook() != nullptr) hook()(fd_, user, p); return score::cpp::blank{}; }
  using Hook = void (*)(FileDescriptor, UserIdentifier, Acl::Permission);
  static Hook& hook() { static Hook h = nullptr; return h; }
 private:
  FileDescriptor fd_;
};
} }
