// Stand-in for the JSON value model, parser and writer of the base libraries. The text form is a private injective encoding (tagged, length-prefixed), so that
// parse(write(v)) == v for every value, and digits of a symbolic number do not fork.
#pragma once
#include "score/result/result.h"
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace score {
namespace json {
enum class Error : score::result::ErrorCode { kUnknownError, kWrongType, kKeyNotFound, kParsingError, kInvalidFilePath };
namespace stub { class Domain final : public result::ErrorDomain { public: std::string_view MessageFor(const result::ErrorCode&) const noexcept override { return "json"; } }; inline const Domain& domain() { static Domain d; return d; } }
inline result::Error MakeError(const Error e, const std::string_view m = "") noexcept { return result::Error{static_cast<result::ErrorCode>(e), stub::domain(), m}; }
class Key {
 public:
  Key(std::string s) : s_{std::move(s)} {} Key(std::string_view s) : s_{s} {} Key(const char* s) : s_{s} {}
  std::string_view GetAsStringView() const noexcept { return s_; }
  friend bool operator<(const Key& a, const Key& b) noexcept { return a.s_ < b.s_; }
  friend bool operator==(const Key& a, const Key& b) noexcept { return a.s_ == b.s_; }
 private:
  std::string s_;
};
class Null {};
class Any;
using Object = std::map<Key, Any>;
using List = std::vector<Any>;
struct Number { bool neg; bool flt; std::uint64_t mag; double d; };
class Any {
 public:
  Any() : v_{Null{}} {}
  Any(Null) : v_{Null{}} {}
  Any(bool b) : v_{b} {}
  explicit Any(const char* s) : v_{std::string{s}} {}
  explicit Any(std::string s) : v_{std::move(s)} {}
  explicit Any(std::string_view s) : v_{std::string{s}} {}
  inline Any(Object o); inline Any(List l);
  template <class T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value, int> = 0> Any(T t) : v_{Number{t < T{}, false, t < T{} ? std::uint64_t{0} - static_cast<std::uint64_t>(t) : static_cast<std::uint64_t>(t), 0.0}} {}
  template <class T, std::enable_if_t<std::is_floating_point<T>::value, int> = 0> Any(T t) : v_{Number{t < 0, true, 0, static_cast<double>(t)}} {}
  Any(Any&&) = default; Any& operator=(Any&&) = default; inline ~Any();
  inline Any CloneByValue() const;
  template <class T, std::enable_if_t<std::is_same<T, bool>::value, int> = 0> Result<T> As() const { if (auto* p = std::get_if<bool>(&v_)) return *p; return MakeUnexpected(Error::kWrongType); }
  template <class T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value, int> = 0> Result<T> As() const {
    auto* p = std::get_if<Number>(&v_); if (p == nullptr || p->flt) return MakeUnexpected(Error::kWrongType);
    if (p->neg) { if (!std::is_signed<T>::value || p->mag > static_cast<std::uint64_t>(std::numeric_limits<T>::max()) + 1U) return MakeUnexpected(Error::kWrongType); return static_cast<T>(std::uint64_t{0} - p->mag); }
    if (p->mag > static_cast<std::uint64_t>(std::numeric_limits<T>::max())) return MakeUnexpected(Error::kWrongType);
    return static_cast<T>(p->mag);
  }
  template <class T, std::enable_if_t<std::is_floating_point<T>::value, int> = 0> Result<T> As() const { auto* p = std::get_if<Number>(&v_); if (p == nullptr) return MakeUnexpected(Error::kWrongType); return static_cast<T>(p->flt ? p->d : static_cast<double>(p->mag)); }
  template <class T, std::enable_if_t<std::is_same<T, std::string_view>::value, int> = 0> Result<T> As() const { if (auto* p = std::get_if<std::string>(&v_)) return std::string_view{*p}; return MakeUnexpected(Error::kWrongType); }
  template <class T, std::enable_if_t<std::is_same<T, std::string>::value, int> = 0> Result<std::reference_wrapper<const std::string>> As() const { if (auto* p = std::get_if<std::string>(&v_)) return std::cref(*p); return MakeUnexpected(Error::kWrongType); }
  template <class T, std::enable_if_t<std::is_same<T, Object>::value, int> = 0> Result<std::reference_wrapper<const Object>> As() const { if (auto* p = std::get_if<std::unique_ptr<Object>>(&v_)) return std::cref(**p); return MakeUnexpected(Error::kWrongType); }
  template <class T, std::enable_if_t<std::is_same<T, List>::value, int> = 0> Result<std::reference_wrapper<const List>> As() const { if (auto* p = std::get_if<std::unique_ptr<List>>(&v_)) return std::cref(**p); return MakeUnexpected(Error::kWrongType); }
  template <class T, std::enable_if_t<std::is_same<T, Null>::value, int> = 0> Result<T> As() const { if (std::holds_alternative<Null>(v_)) return Null{}; return MakeUnexpected(Error::kWrongType); }
  template <class T, std::enable_if_t<std::is_same<T, std::string>::value, int> = 0> Result<std::reference_wrapper<std::string>> As() { if (auto* p = std::get_if<std::string>(&v_)) return std::ref(*p); return MakeUnexpected(Error::kWrongType); }
  template <class T, std::enable_if_t<std::is_same<T, Object>::value, int> = 0> Result<std::reference_wrapper<Object>> As() { if (auto* p = std::get_if<std::unique_ptr<Object>>(&v_)) return std::ref(**p); return MakeUnexpected(Error::kWrongType); }
  template <class T, std::enable_if_t<std::is_same<T, List>::value, int> = 0> Result<std::reference_wrapper<List>> As() { if (auto* p = std::get_if<std::unique_ptr<List>>(&v_)) return std::ref(**p); return MakeUnexpected(Error::kWrongType); }
  inline void stub_write(std::string& o) const;
 private:
  std::variant<Null, bool, Number, std::string, std::unique_ptr<Object>, std::unique_ptr<List>> v_;
};
inline Any::Any(Object o) : v_{std::make_unique<Object>(std::move(o))} {}
inline Any::Any(List l) : v_{std::make_unique<List>(std::move(l))} {}
inline Any::~Any() = default;
namespace stub {
inline void hex(std::string& o, std::uint64_t v, int digits) { for (int i = digits - 1; i >= 0; --i) { o += static_cast<char>('@' + ((v >> (4 * i)) & 15U)); } }
inline void str(std::string& o, std::string_view s) { hex(o, s.size(), 8); o.append(s.data(), s.size()); }
struct Rd {
  std::string_view s; std::size_t p = 0; bool bad = false;
  char c() { if (p >= s.size()) { bad = true; return 0; } return s[p++]; }
  std::uint64_t hex(int digits) { std::uint64_t v = 0; for (int i = 0; i < digits; ++i) v = (v << 4) | (static_cast<unsigned char>(c()) & 15U); return v; }
  std::string str() { std::uint64_t n = hex(8); if (bad || n > s.size() - p) { bad = true; return {}; } std::string r{s.substr(p, n)}; p += n; return r; }
  inline Any any();
};
}
inline void Any::stub_write(std::string& o) const {
  if (auto* b = std::get_if<bool>(&v_)) { o += 'b'; o += static_cast<char>('@' + (*b ? 1 : 0)); }
  else if (auto* n = std::get_if<Number>(&v_)) { o += 'n'; o += static_cast<char>('@' + (n->neg ? 1 : 0)); stub::hex(o, n->mag, 16); }
  else if (auto* s = std::get_if<std::string>(&v_)) { o += 's'; stub::str(o, *s); }
  else if (auto* m = std::get_if<std::unique_ptr<Object>>(&v_)) { o += 'o'; stub::hex(o, (*m)->size(), 8); for (auto& e : **m) { stub::str(o, e.first.GetAsStringView()); e.second.stub_write(o); } }
  else if (auto* l = std::get_if<std::unique_ptr<List>>(&v_)) { o += 'l'; stub::hex(o, (*l)->size(), 8); for (auto& e : **l) e.stub_write(o); }
  else o += '0';
}
inline Any stub::Rd::any() {
  char t = c(); if (bad) return Any{};
  if (t == 'b') return Any{(c() & 1) != 0};
  if (t == 'n') { bool neg = (c() & 1) != 0; std::uint64_t m = hex(16); if (neg) return Any{static_cast<std::int64_t>(std::uint64_t{0} - m)}; return Any{m}; }
  if (t == 's') return Any{str()};
  if (t == 'o') { std::uint64_t n = hex(8); Object o; for (std::uint64_t i = 0; i < n && !bad; ++i) { std::string k = str(); Any v = any(); o.emplace(Key{std::move(k)}, std::move(v)); } return Any{std::move(o)}; }
  if (t == 'l') { std::uint64_t n = hex(8); List l; for (std::uint64_t i = 0; i < n && !bad; ++i) l.push_back(any()); return Any{std::move(l)}; }
  if (t == '0') return Any{};
  bad = true; return Any{};
}
inline Any Any::CloneByValue() const { std::string s; stub_write(s); stub::Rd r{s}; return r.any(); }
inline std::string stub_encode(const Object& o) { std::string s{"o"}; stub::hex(s, o.size(), 8); for (auto& e : o) { stub::str(s, e.first.GetAsStringView()); e.second.stub_write(s); } return s; }
class JsonParser {
 public:
  Result<Any> FromBuffer(const std::string_view b) const noexcept { stub::Rd r{b}; Any a = r.any(); if (r.bad || r.p != b.size()) return MakeUnexpected(Error::kParsingError); return a; }
  Result<Any> FromFile(const std::string_view) const noexcept { if (stub_file() != nullptr) return stub_file()->CloneByValue(); return MakeUnexpected(Error::kInvalidFilePath); }
  static Any*& stub_file() { static Any* p = nullptr; return p; }
};
} }
