// SOURCES: @mem score/memory/shared/lock_file.cpp
// ENTRY: h_lockfile property=C24 reach=created,taken,busy,opened,moved,ended,failed quick=100 thorough=600 defs=K=3 tdefs=K=4
// BOUND: 3 (4) operations on 2 lock-file objects over 2 files, one failing chmod
#include "sym.h"
#include "score/memory/shared/lock_file.h"
#include "score/os/fcntl.h"
#include "score/os/stat.h"
#include "score/os/unistd.h"
#include <cerrno>
#include <cstring>
#include <optional>
#ifndef K
#define K 4
#endif
using score::memory::shared::LockFile; using score::os::Error; using score::os::Fcntl; using score::os::Stat; using score::os::Unistd;
namespace {
auto err(int e) { return score::cpp::make_unexpected(Error::createFromErrno(e)); }
const char* const kPath[2] = {"/tmp/lock_a", "/tmp/lock_b"}; bool g_file[2], g_fd[16]; int g_of[16], g_n; int g_gen[2]; bool g_chmod_fails;
int of(const char* p) { for (int i = 0; i < 2; i++) if (std::strcmp(p, kPath[i]) == 0) return i; sym_assert(false, "another file"); return 0; }
struct FF : Fcntl {
  score::cpp::expected<std::int32_t, Error> open(const char* p, const Open fl) const noexcept override { return open(p, fl, Stat::Mode::kNone); }
  score::cpp::expected<std::int32_t, Error> open(const char* p, const Open fl, const Stat::Mode) const noexcept override { const int i = of(p); const bool c = (fl & Open::kCreate) == Open::kCreate, x = (fl & Open::kExclusive) == Open::kExclusive; if (c && x && g_file[i]) return err(EEXIST); if (!c && !g_file[i]) return err(ENOENT); g_gen[i] += !g_file[i]; g_file[i] = true; sym_assert(g_n < 16, "harness"); g_fd[g_n] = true; g_of[g_n] = i; return 50 + g_n++; }
  score::cpp::expected<std::int32_t, Error> fcntl(const std::int32_t, const Command) const noexcept { return err(EINVAL); }
  score::cpp::expected_blank<Error> flock(const std::int32_t, const Operation) const noexcept override { return err(EINVAL); }
};
struct FS : Stat {
  score::cpp::expected_blank<Error> stat(const char*, score::os::StatBuffer&, const bool) const noexcept override { return err(EINVAL); } score::cpp::expected_blank<Error> fstat(const std::int32_t, score::os::StatBuffer&) const noexcept override { return err(EINVAL); } score::cpp::expected_blank<Error> mkdir(const char*, const Mode) const noexcept override { return err(EINVAL); }
  score::cpp::expected_blank<Error> chmod(const char* p, const Mode) const noexcept override { sym_assert(g_file[of(p)], "no such file"); if (g_chmod_fails) return err(EPERM); return {}; } score::cpp::expected_blank<Error> fchmod(const std::int32_t, const Mode) const noexcept override { if (g_chmod_fails) return err(EPERM); return {}; }
};
struct FU : Unistd {
  score::cpp::expected_blank<Error> close(const std::int32_t f) const noexcept override { sym_assert(f >= 50 && f < 50 + g_n && g_fd[f - 50], "a descriptor is closed that is not open"); g_fd[f - 50] = false; return {}; }
  score::cpp::expected_blank<Error> unlink(const char* p) const noexcept override { const int i = of(p); sym_assert(g_file[i], "a lock file is removed twice"); g_file[i] = false; return {}; }
  uid_t getuid() const noexcept override { return 0; }
};
struct M { bool live{false}; int file{0}; bool owns{false}; int gen{0}; };
}
extern "C" void h_lockfile() {
  Fcntl::set_testing_instance(*new FF); Stat::set_testing_instance(*new FS); Unistd::set_testing_instance(*new FU); g_n = 0; g_file[0] = g_file[1] = false; for (auto& b : g_fd) b = false; std::optional<LockFile> l[2]; M m[2]; if (sym_choose(2, "another process")) g_file[1] = true;
  bool want[2] = {g_file[0], g_file[1]}; auto end = [&](int i) { if (!m[i].live) return; if (m[i].owns) want[m[i].file] = false; m[i] = {}; sym_reach("ended"); };
  auto check = [&] { int fds[2]{}, mine[2]{}; for (int i = 0; i < g_n; i++) if (g_fd[i]) fds[g_of[i]]++; for (auto& x : m) if (x.live) mine[x.file]++; for (int f = 0; f < 2; f++) { sym_assert(g_file[f] == want[f], want[f] ? "a lock file is removed by somebody who does not own it" : "the lock file is left behind"); sym_assert(fds[f] == mine[f], "a descriptor leaks or is closed too early"); } };
  auto two = [&](int f, int but) { for (int i = 0; i < 2; i++) if (i != but && m[i].live && m[i].owns && m[i].file == f) return true; return false; }; // a file has one owner
  for (int k = 0; k < K; k++) { const int i = sym_choose(2, "which"), op = sym_choose(5, "op");
    if (op == 0) { sym_assume(!m[i].live); const int f = sym_choose(2, "file"), how = sym_choose(4, "how"); g_chmod_fails = how != 3 && sym_choose(2, "chmod") != 0; sym_assume(how != 1 || !two(f, i)); const bool was = want[f]; auto r = how == 0 ? LockFile::Create(kPath[f]) : how == 3 ? LockFile::Open(kPath[f]) : LockFile::CreateOrOpen(kPath[f], how == 1);
      const bool can = how == 0 ? !was : how == 3 ? was : true; sym_assert(r.has_value() == (can && !g_chmod_fails), how == 0 ? "the lock is taken exactly if nobody holds it" : "opened exactly if it is possible");
      if (r.has_value()) { if (how != 3) want[f] = true; m[i] = {true, f, how < 2, g_gen[f]}; l[i].emplace(std::move(*r)); sym_reach(how == 0 ? "created" : how == 1 ? "taken" : "opened"); } else { if (can && how != 0) want[f] = true; if (!can) sym_reach("busy"); else sym_reach("failed"); } g_chmod_fails = false; }
    else if (op == 1) { sym_assume(m[i].live); l[i].reset(); end(i); }
    else if (op == 2) { sym_assume(m[i].live && !two(m[i].file, i) && g_file[m[i].file] && m[i].gen == g_gen[m[i].file]); l[i]->TakeOwnership(); m[i].owns = true; }
    else if (op == 3) { sym_assume(m[i].live && m[1 - i].live); *l[1 - i] = std::move(*l[i]); const M x = m[i]; end(1 - i); l[i].reset(); m[i] = {}; m[1 - i] = x; sym_reach("moved"); }
    else { sym_assume(m[i].live && !m[1 - i].live); LockFile t{std::move(*l[i])}; l[i].reset(); l[1 - i].emplace(std::move(t)); m[1 - i] = m[i]; m[i] = {}; sym_reach("moved"); }
    check(); }
  for (int i = 0; i < 2; i++) { l[i].reset(); end(i); } check();
}
