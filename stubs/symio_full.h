#pragma once
#include "symio.h"
#include <string>
#include <string_view>
namespace std {
inline namespace symio {
class ios_base {
 public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static constexpr fmtflags boolalpha = 1, dec = 2, hex = 4, oct = 8, left = 16, right = 32, internal = 64, showbase = 128, uppercase = 256, fixed = 512, scientific = 1024, showpos = 2048, skipws = 4096, showpoint = 8192, basefield = dec | hex | oct, adjustfield = left | right | internal, floatfield = fixed | scientific;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  fmtflags flags() const { return f_; } fmtflags flags(fmtflags f) { fmtflags o = f_; f_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = f_; f_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = f_; f_ = (f_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { f_ &= ~f; }
  streamsize width() const { return w_; } streamsize width(streamsize w) { streamsize o = w_; w_ = w; return o; } streamsize precision() const { return 6; } streamsize precision(streamsize) { return 6; }
 protected:
  fmtflags f_ = dec; streamsize w_ = 0; iostate st_ = 0;
};
template <class C, class T> class basic_ios : public ios_base {
 public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); } iostate rdstate() const { return st_; } void clear(iostate s = goodbit) { st_ = s; } void setstate(iostate s) { st_ |= s; }
  C fill() const { return fill_; } C fill(C c) { C o = fill_; fill_ = c; return o; }
  basic_string<C, T> sym_buf; size_t sym_pos = 0; bool sym_null = false;
 protected:
  C fill_ = C(' ');
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
 public:
  basic_ostream() = default; explicit basic_ostream(basic_streambuf<C, T>*) { this->sym_null = true; } virtual ~basic_ostream() = default;
  void sym_text(const C* p, size_t n) {
    if (this->sym_null) { this->w_ = 0; return; }
    size_t w = this->w_ > 0 ? static_cast<size_t>(this->w_) : 0; bool l = (this->f_ & ios_base::adjustfield) == ios_base::left;
    if (!l) for (size_t i = n; i < w; i++) this->sym_buf.push_back(this->fill_);
    this->sym_buf.append(p, n);
    if (l) for (size_t i = n; i < w; i++) this->sym_buf.push_back(this->fill_);
    this->w_ = 0;
  }
  template <class U> void sym_uint(U v, bool neg) {
    if (this->sym_null) { this->w_ = 0; return; }
    C b[26]; int i = 26; unsigned f = this->f_ & ios_base::basefield;
    if (f == ios_base::hex) { const char* d = (this->f_ & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef"; do { b[--i] = C(d[v & 15]); v = static_cast<U>(v >> 4); } while (v); if (this->f_ & ios_base::showbase) { b[--i] = C('x'); b[--i] = C('0'); } }
    else if (f == ios_base::oct) { do { b[--i] = C('0' + (v & 7)); v = static_cast<U>(v >> 3); } while (v); }
    else { do { b[--i] = C('0' + static_cast<int>(v % 10u)); v = static_cast<U>(v / 10u); } while (v); }
    if (neg) b[--i] = C('-');
    sym_text(b + i, static_cast<size_t>(26 - i));
  }
  template <class S, class U> void sym_int(S v) { if (v < 0 && (this->f_ & ios_base::basefield) == ios_base::dec) sym_uint<U>(static_cast<U>(U(0) - static_cast<U>(v)), true); else sym_uint<U>(static_cast<U>(v), false); }
  basic_ostream& operator<<(unsigned short v) { sym_uint<unsigned>(v, false); return *this; }
  basic_ostream& operator<<(short v) { if ((this->f_ & ios_base::basefield) != ios_base::dec) sym_uint<unsigned>(static_cast<unsigned short>(v), false); else sym_int<int, unsigned>(v); return *this; }
  basic_ostream& operator<<(unsigned v) { sym_uint<unsigned>(v, false); return *this; }
  basic_ostream& operator<<(int v) { sym_int<int, unsigned>(v); return *this; }
  basic_ostream& operator<<(unsigned long v) { sym_uint<unsigned long>(v, false); return *this; }
  basic_ostream& operator<<(long v) { sym_int<long, unsigned long>(v); return *this; }
  basic_ostream& operator<<(unsigned long long v) { sym_uint<unsigned long>(v, false); return *this; }
  basic_ostream& operator<<(long long v) { sym_int<long, unsigned long>(v); return *this; }
  basic_ostream& operator<<(bool v) { if (this->f_ & ios_base::boolalpha) { static const C t[] = {'t', 'r', 'u', 'e'}, f[] = {'f', 'a', 'l', 's', 'e'}; if (v) sym_text(t, 4); else sym_text(f, 5); } else sym_uint<unsigned>(v, false); return *this; }
  basic_ostream& operator<<(const void* p) { unsigned o = this->f_; this->f_ = ios_base::hex | ios_base::showbase; sym_uint<unsigned long>(reinterpret_cast<unsigned long>(p), false); this->f_ = o; return *this; }
  basic_ostream& operator<<(double) { static const C t[] = {'?'}; sym_text(t, 1); return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& put(C c) { if (!this->sym_null) this->sym_buf.push_back(c); return *this; }
  basic_ostream& write(const C* p, streamsize n) { if (!this->sym_null) this->sym_buf.append(p, static_cast<size_t>(n)); return *this; }
  basic_ostream& flush() { return *this; }
};
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
 public:
  basic_istream() = default; virtual ~basic_istream() = default;
  typename T::int_type get() { if (this->sym_pos >= this->sym_buf.size()) { this->st_ |= ios_base::eofbit | ios_base::failbit; return T::eof(); } return T::to_int_type(this->sym_buf[this->sym_pos++]); }
  typename T::int_type peek() { if (this->sym_pos >= this->sym_buf.size()) { this->st_ |= ios_base::eofbit; return T::eof(); } return T::to_int_type(this->sym_buf[this->sym_pos]); }
  void sym_ws() { while (this->sym_pos < this->sym_buf.size() && (this->sym_buf[this->sym_pos] == C(' ') || (this->sym_buf[this->sym_pos] >= C('\t') && this->sym_buf[this->sym_pos] <= C('\r')))) this->sym_pos++; }
  template <class U> basic_istream& sym_unum(U& o) {
    if (!this->good()) { this->st_ |= ios_base::failbit; return *this; }
    sym_ws(); U v = 0; bool any = false, over = false; unsigned base = (this->f_ & ios_base::hex) ? 16u : 10u;
    for (; this->sym_pos < this->sym_buf.size(); this->sym_pos++) { C c = this->sym_buf[this->sym_pos]; unsigned d; if (c >= '0' && c <= '9') d = static_cast<unsigned>(c - '0'); else if (base == 16 && c >= 'a' && c <= 'f') d = static_cast<unsigned>(c - 'a' + 10); else if (base == 16 && c >= 'A' && c <= 'F') d = static_cast<unsigned>(c - 'A' + 10); else break; any = true; U n = static_cast<U>(v * base + d); if (v > (static_cast<U>(~static_cast<U>(0)) - d) / base) over = true; v = n; }
    if (this->sym_pos >= this->sym_buf.size()) this->st_ |= ios_base::eofbit;
    if (!any) { o = 0; this->st_ |= ios_base::failbit; } else if (over) { o = static_cast<U>(~static_cast<U>(0)); this->st_ |= ios_base::failbit; } else o = v;
    return *this;
  }
  basic_istream& operator>>(unsigned short& v) { return sym_unum(v); } basic_istream& operator>>(unsigned& v) { return sym_unum(v); } basic_istream& operator>>(unsigned long& v) { return sym_unum(v); }
  basic_istream& operator>>(int& v) { unsigned u; sym_unum(u); v = static_cast<int>(u); return *this; }
  basic_istream& operator>>(C& c) { sym_ws(); auto x = get(); if (x != T::eof()) c = T::to_char_type(x); return *this; }
  basic_istream& operator>>(basic_string<C, T>& s) { s.clear(); sym_ws(); while (this->sym_pos < this->sym_buf.size() && !(this->sym_buf[this->sym_pos] == C(' ') || (this->sym_buf[this->sym_pos] >= C('\t') && this->sym_buf[this->sym_pos] <= C('\r')))) s.push_back(this->sym_buf[this->sym_pos++]); if (s.empty()) this->st_ |= ios_base::failbit; if (this->sym_pos >= this->sym_buf.size()) this->st_ |= ios_base::eofbit; return *this; }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
};
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() = default; };
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
 public:
  basic_stringstream() = default; explicit basic_stringstream(ios_base::openmode) {} explicit basic_stringstream(const basic_string<C, T, A>& s, ios_base::openmode = 0) { this->sym_buf.assign(s.data(), s.size()); }
  basic_string<C, T, A> str() const { return basic_string<C, T, A>(this->sym_buf.data(), this->sym_buf.size()); } void str(const basic_string<C, T, A>& s) { this->sym_buf.assign(s.data(), s.size()); this->sym_pos = 0; }
};
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
 public:
  basic_ostringstream() = default; explicit basic_ostringstream(ios_base::openmode) {}
  basic_string<C, T, A> str() const { return basic_string<C, T, A>(this->sym_buf.data(), this->sym_buf.size()); } void str(const basic_string<C, T, A>& s) { this->sym_buf.assign(s.data(), s.size()); }
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
 public:
  basic_istringstream() = default; explicit basic_istringstream(const basic_string<C, T, A>& s, ios_base::openmode = 0) { this->sym_buf.assign(s.data(), s.size()); }
  basic_string<C, T, A> str() const { return basic_string<C, T, A>(this->sym_buf.data(), this->sym_buf.size()); } void str(const basic_string<C, T, A>& s) { this->sym_buf.assign(s.data(), s.size()); this->sym_pos = 0; }
};
template <class C, class T> class basic_streambuf { public: virtual ~basic_streambuf() = default; };
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { o.sym_text(s, char_traits<char>::length(s)); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { o.sym_text(&c, 1); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char d = static_cast<char>(c); o.sym_text(&d, 1); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char d = static_cast<char>(c); o.sym_text(&d, 1); return o; }
inline ostream& operator<<(ostream& o, const string& s) { o.sym_text(s.data(), s.size()); return o; }
inline ostream& operator<<(ostream& o, string_view s) { o.sym_text(s.data(), s.size()); return o; }
inline istream& getline(istream& i, string& s, char d = '\n') { s.clear(); if (i.sym_pos >= i.sym_buf.size()) { i.setstate(ios_base::eofbit | ios_base::failbit); return i; } while (true) { if (i.sym_pos >= i.sym_buf.size()) { i.setstate(ios_base::eofbit); break; } char c = i.sym_buf[i.sym_pos++]; if (c == d) break; s.push_back(c); } return i; }
// rvalue streams
template <class O, class X, class = decltype(static_cast<ios_base*>(static_cast<O*>(nullptr))), class = typename enable_if<!is_lvalue_reference<O>::value>::type> O&& operator<<(O&& o, const X& x) { static_cast<ostream&>(o) << x; return static_cast<O&&>(o); }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed); return b; }
template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put(C('\n')); return o; }
template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
struct sym_setw { streamsize n; }; struct sym_setfill { char c; }; struct sym_setbase { int b; }; struct sym_setprec { int n; };
inline sym_setw setw(int n) { return {n}; } inline sym_setfill setfill(char c) { return {c}; } inline sym_setbase setbase(int b) { return {b}; } inline sym_setprec setprecision(int n) { return {n}; }
inline ostream& operator<<(ostream& o, sym_setw w) { o.width(w.n); return o; } inline ostream& operator<<(ostream& o, sym_setfill f) { o.fill(f.c); return o; } inline ostream& operator<<(ostream& o, sym_setprec) { return o; }
inline ostream& operator<<(ostream& o, sym_setbase b) { o.setf(b.b == 16 ? ios_base::hex : b.b == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
struct sym_null_ostream : ostream { sym_null_ostream() { this->sym_null = true; } };
inline sym_null_ostream cout, cerr, clog;
template <class S> string quoted(const S& s) { return string(s); }
}
}
