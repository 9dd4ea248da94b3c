#pragma once
#include "score/os/acl.h"
#include <sys/types.h>
#include <vector>
namespace score { namespace os {
class IAccessControlList {
 public:
  using UserIdentifier = uid_t; using FileDescriptor = Acl::FileDescriptor;
  virtual ~IAccessControlList() = default;
  virtual score::cpp::expected_blank<Error> AllowUser(const UserIdentifier user, const Acl::Permission p) = 0;
  virtual score::cpp::expected<bool, Error> VerifyMaskPermissions(const std::vector<Acl::Permission>&) const { return true; }
  virtual score::cpp::expected<std::vector<UserIdentifier>, Error> FindUserIdsWithPermission(Acl::Permission) const { return std::vector<UserIdentifier>{}; }
  virtual score::cpp::expected<std::vector<UserIdentifier>, Error> FindUserIdsWithPermissions(std::vector<Acl::Permission>) const { return std::vector<UserIdentifier>{}; }
};
} }
