// In-memory file system and shared-memory objects behind the OS seams; every step checks the locking protocol.
#pragma once
#include "sym.h"
#include <cerrno>
#include <cstring>
#include <string>
#include "score/os/fcntl.h"
#include "score/os/mman.h"
#include "score/os/stat.h"
#include "score/os/unistd.h"
#include "score/os/utils/acl/access_control_list.h"
namespace fos {
using score::os::Error; using score::os::Fcntl; using score::os::Mman; using score::os::Stat; using score::os::Unistd;
inline auto err(int e) { return score::cpp::make_unexpected(Error::createFromErrno(e)); }
struct Obj { const char* path{nullptr}; bool exists{false}; std::uint32_t uid{0}, mode{0}; std::uint64_t size{0}; char* mem{nullptr}; unsigned maps{0}; bool lock{false}, lock_ours{false}; int lock_fd{-1}; unsigned foreign{0}; unsigned acl_n{0}; std::uint32_t acl_user[4]{}; int acl_perm[4]{}; bool initialised{false}; };
struct Fd { int kind{0}; int obj{-1}; bool open{false}; bool rw{false}; };
struct Os {
  Obj o[3]; Fd fd[16]; int nfd{0}; std::uint32_t uid{0}, umask{0}; bool chmod_fails{false}, fchmod_fails{false}; int shm_errno{0}; int lock_errno{0}; bool appear_on_create{false}; bool anon_ok{true}, seal_ok{true}; unsigned opens{0}, unlinks{0};
  int of(const char* p) { for (int i = 0; i < 3; i++) if (o[i].path && std::strcmp(o[i].path, p) == 0) return i; sym_assert(false, "an unexpected shared-memory path"); return -1; }
  int of_lock(const char* p) { for (int i = 0; i < 3; i++) if (o[i].path) { std::string l = std::string("/tmp") + o[i].path + "_lock"; if (l == p) return i; } sym_assert(false, "an unexpected lock file path"); return -1; }
  int new_fd(int kind, int obj, bool rw) { sym_assert(nfd < 16, "harness"); fd[nfd] = {kind, obj, true, rw}; return 100 + nfd++; }
  unsigned open_fds() { unsigned n = 0; for (auto& f : fd) n += f.open; return n; }
  Fd& get(int f) { sym_assert((f >= 100) & (f < 100 + nfd), "a file descriptor that was never opened"); Fd& r = fd[f - 100]; sym_assert(r.open, "a closed file descriptor is used"); return r; }
  void locked(int i, const char* what) { if (o[i].path) sym_assert(o[i].lock & o[i].lock_ours, what); }
};
inline Os* g_os = nullptr;
struct FakeMman : Mman {
  score::cpp::expected<void*, Error> mmap(void*, const std::size_t n, const Protection prot, const Map m, const std::int32_t f, const std::int64_t off) const noexcept override { Fd& d = g_os->get(f); Obj& o = g_os->o[d.obj]; g_os->locked(d.obj, "memory is mapped without the lock"); sym_assert((m == Map::kShared) & (off == 0), "memory is mapped privately or not from its start"); sym_assert(n == o.size, "the mapping does not have the size of the object"); sym_assert(prot == (d.rw ? (Protection::kRead | Protection::kWrite) : Protection::kRead), "mapped with other rights than asked for"); o.maps++; return static_cast<void*>(o.mem); }
  score::cpp::expected_blank<Error> munmap(void* p, const std::size_t n) const noexcept override { for (auto& o : g_os->o) if (o.mem == p) { sym_assert((o.maps > 0) & (n == o.size), "unmaps something it has not mapped"); o.maps--; return {}; } sym_assert(false, "unmaps something it has not mapped"); return {}; }
  score::cpp::expected<std::int32_t, Error> shm_open(const char* path, const Fcntl::Open fl, const Stat::Mode mode) const noexcept override {
    auto has = [&](Fcntl::Open b) { return (fl & b) == b; }; int i = g_os->of(path); Obj& o = g_os->o[i]; g_os->locked(i, "a shared-memory object is opened or created without the lock"); g_os->opens++; bool rw = has(Fcntl::Open::kReadWrite);
    if (g_os->shm_errno) return err(g_os->shm_errno);
    if (has(Fcntl::Open::kCreate)) { if (g_os->appear_on_create && !o.exists) { o.exists = true; g_os->appear_on_create = false; } sym_assert(has(Fcntl::Open::kExclusive) & rw, "created without making sure that it is new"); if (o.exists) return err(EEXIST); o.exists = true; o.size = 0; o.uid = g_os->uid; o.mode = score::os::ModeToInteger(mode) & ~g_os->umask; o.acl_n = 0; o.initialised = false; } else if (!o.exists) return err(ENOENT);
    return g_os->new_fd(1, i, rw); }
  score::cpp::expected_blank<Error> shm_unlink(const char* path) const noexcept override { Obj& o = g_os->o[g_os->of(path)]; g_os->unlinks++; if (!o.exists) return err(ENOENT); o.exists = false; return {}; }
};
struct FakeStat : Stat {
  score::cpp::expected_blank<Error> stat(const char* p, score::os::StatBuffer& b, const bool) const noexcept override { Obj* o = nullptr; for (auto& c : g_os->o) if (c.path && std::string("/tmp") + c.path == p) { if (!c.exists) return err(ENOENT); b.st_uid = static_cast<std::int32_t>(c.uid); b.st_size = c.size; return {}; }
    o = &g_os->o[g_os->of_lock(p)]; if (o->lock && !o->lock_ours && o->foreign != 255) { if (o->foreign == 0) o->lock = false; else o->foreign--; } if (!o->lock) return err(ENOENT); return {}; }
  score::cpp::expected_blank<Error> fstat(const std::int32_t f, score::os::StatBuffer& b) const noexcept override { Fd& d = g_os->get(f); Obj& o = g_os->o[d.obj]; b.st_uid = static_cast<std::int32_t>(o.uid); b.st_size = o.size; return {}; }
  score::cpp::expected_blank<Error> mkdir(const char*, const Mode) const noexcept override { return err(EACCES); }
  score::cpp::expected_blank<Error> chmod(const char* p, const Mode) const noexcept override { g_os->of_lock(p); if (g_os->chmod_fails) return err(EPERM); return {}; }
  score::cpp::expected_blank<Error> fchmod(const std::int32_t f, const Mode m) const noexcept override { Fd& d = g_os->get(f); if (g_os->fchmod_fails) return err(EPERM); g_os->o[d.obj].mode = score::os::ModeToInteger(m); return {}; }
};
struct FakeUnistd : Unistd {
  score::cpp::expected_blank<Error> close(const std::int32_t f) const noexcept override { g_os->get(f).open = false; return {}; }
  score::cpp::expected_blank<Error> unlink(const char* p) const noexcept override { Obj& o = g_os->o[g_os->of_lock(p)]; if (!o.lock) return err(ENOENT); o.lock = false; o.lock_ours = false; return {}; }
  score::cpp::expected_blank<Error> ftruncate(const std::int32_t f, const off_t n) const noexcept override { Fd& d = g_os->get(f); g_os->locked(d.obj, "the object is sized without the lock"); sym_assert(d.rw, "sized through a read-only descriptor"); g_os->o[d.obj].size = static_cast<std::uint64_t>(n); return {}; }
  uid_t getuid() const noexcept override { return g_os->uid; }
};
struct FakeFcntl : Fcntl {
  score::cpp::expected<std::int32_t, Error> open(const char*, const Open) const noexcept override { return err(EINVAL); }
  score::cpp::expected<std::int32_t, Error> open(const char* p, const Open fl, const Stat::Mode) const noexcept override { int i = g_os->of_lock(p); Obj& o = g_os->o[i]; sym_assert(((fl & Open::kCreate) == Open::kCreate) & ((fl & Open::kExclusive) == Open::kExclusive), "the lock is taken without making sure that nobody has it"); if (g_os->lock_errno) { int e = g_os->lock_errno; g_os->lock_errno = 0; return err(e); } if (o.lock) return err(EEXIST); o.lock = true; o.lock_ours = true; return o.lock_fd = g_os->new_fd(2, i, false); }
  score::cpp::expected_blank<Error> flock(const std::int32_t, const Operation) const noexcept override { return err(EINVAL); }
};
inline void install(Os* os) { g_os = os; Mman::set_testing_instance(*new FakeMman); Stat::set_testing_instance(*new FakeStat); Unistd::set_testing_instance(*new FakeUnistd); Fcntl::set_testing_instance(*new FakeFcntl);
  score::os::AccessControlList::hook() = [](int f, uid_t u, score::os::Acl::Permission p) { Obj& o = g_os->o[g_os->get(f).obj]; if (o.acl_n < 4) { o.acl_user[o.acl_n] = u; o.acl_perm[o.acl_n] = static_cast<int>(p); } o.acl_n++; }; }
}
