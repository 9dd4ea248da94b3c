// Stand-in: file system interfaces; a harness installs an in-memory file system.
#pragma once
#include "score/filesystem/path.h"
#include "score/os/stat.h"
#include "score/result/result.h"
#include <cstdint>
#include <ios>
#include <iosfwd>
#include <memory>
#include <vector>
namespace score { namespace filesystem {
enum class FileType { kNone, kNotFound, kRegular, kDirectory, kSymlink, kUnknown };
using Perms = os::Stat::Mode;
enum class PermOptions { kReplace, kAdd, kRemove };
class FileStatus { public: FileStatus(FileType t, Perms p) : t_{t}, p_{p} {} FileType Type() const { return t_; } Perms Permissions() const { return p_; } private: FileType t_; Perms p_; };
class IStandardFilesystem {
 public:
  virtual ~IStandardFilesystem() = default;
  virtual Result<bool> Exists(const Path&) const noexcept = 0;
  virtual Result<FileStatus> Status(const Path&) const noexcept = 0;
  virtual Result<void> Permissions(const Path&, const Perms, const PermOptions) const noexcept = 0;
  virtual Result<void> Remove(const Path&) const noexcept = 0;
  virtual Result<void> RemoveAll(const Path& p) const noexcept { return Remove(p); }
  virtual Result<bool> IsDirectory(const Path& p) const noexcept { auto s = Status(p); return s.has_value() && s.value().Type() == FileType::kDirectory; }
  virtual Result<std::vector<Path>> List(const Path&) const noexcept { return std::vector<Path>{}; }
  static IStandardFilesystem*& stub_instance() { static IStandardFilesystem* p = nullptr; return p; }
};
class IFileUtils {
 public:
  virtual ~IFileUtils() = default;
  virtual Result<void> CreateDirectories(const Path&, const Perms) const noexcept = 0;
  virtual Result<void> CreateDirectory(const Path&, const Perms) const noexcept = 0;
};
class IFileFactory {
 public:
  virtual ~IFileFactory() = default;
  virtual Result<std::unique_ptr<std::iostream>> Open(const Path&, const std::ios_base::openmode) const noexcept = 0;
};
class Filesystem { public: std::shared_ptr<IStandardFilesystem> standard; std::shared_ptr<IFileUtils> utils; std::shared_ptr<IFileFactory> streams; };
class DirectoryEntry {
 public:
  explicit DirectoryEntry(Path p) : p_{std::move(p)} {}
  const Path& GetPath() const noexcept { return p_; }
  Result<FileStatus> Status() const { return IStandardFilesystem::stub_instance()->Status(p_); }
  Result<bool> IsDirectory() const { return IStandardFilesystem::stub_instance()->IsDirectory(p_); }
 private:
  Path p_;
};
class DirectoryIterator {
 public:
  using value_type = DirectoryEntry; using difference_type = std::ptrdiff_t; using pointer = const DirectoryEntry*; using reference = const DirectoryEntry&; using iterator_category = std::input_iterator_tag;
  DirectoryIterator() = default;
  explicit DirectoryIterator(const Path& p) : v_{std::make_shared<std::vector<DirectoryEntry>>()} { auto l = IStandardFilesystem::stub_instance()->List(p); for (auto& x : l.value()) v_->emplace_back(x); }
  const DirectoryEntry& operator*() const { return (*v_)[i_]; } const DirectoryEntry* operator->() const { return &(*v_)[i_]; }
  DirectoryIterator& operator++() { ++i_; return *this; }
  friend bool operator==(const DirectoryIterator& a, const DirectoryIterator& b) { return a.at_end() == b.at_end() && (a.at_end() || a.i_ == b.i_); }
  friend bool operator!=(const DirectoryIterator& a, const DirectoryIterator& b) { return !(a == b); }
 private:
  bool at_end() const { return !v_ || i_ >= v_->size(); }
  std::shared_ptr<std::vector<DirectoryEntry>> v_; std::size_t i_{0};
};
inline DirectoryIterator begin(DirectoryIterator i) noexcept { return i; }
inline DirectoryIterator end(const DirectoryIterator&) noexcept { return DirectoryIterator{}; }
} }
