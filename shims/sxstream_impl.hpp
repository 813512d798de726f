#pragma once
#include "sxstream.hpp"
#include <string>
#include <string_view>
#include <exception>
#include <stdexcept>
#include <new>
extern "C" size_t sx_write_stdout(const char *p, size_t n);
extern "C" int sx_fmt_double(char *b, size_t n, int conv, int prec, double v);
namespace std {
inline namespace sxio {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir; typedef std::streamoff streamoff;
  static constexpr fmtflags dec = 2, hex = 8, oct = 64, basefield = 74, fixed = 4, scientific = 256, floatfield = 260, left = 32, right = 128, internal = 16, adjustfield = 176, boolalpha = 1, showbase = 512, showpos = 2048, uppercase = 16384, skipws = 4096, unitbuf = 8192, showpoint = 1024;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32; static constexpr seekdir beg = 0, cur = 1, end = 2;
  struct failure : std::runtime_error { using runtime_error::runtime_error; };
  struct Init { Init() {} ~Init() {} };
  fmtflags flags() const { return fl; } fmtflags flags(fmtflags f) { fmtflags o = fl; fl = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl; fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl; fl = (fl & ~m) | (f & m); return o; } void unsetf(fmtflags m) { fl &= ~m; }
  streamsize precision() const { return pr; } streamsize precision(streamsize p) { streamsize o = pr; pr = p; return o; }
  streamsize width() const { return wd; } streamsize width(streamsize w) { streamsize o = wd; wd = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  ios_base(const ios_base &) = delete; ios_base &operator=(const ios_base &) = delete; virtual ~ios_base() {}
protected:
  ios_base() {} fmtflags fl = dec | skipws; streamsize pr = 6, wd = 0;
};
template <class C, class T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef std::streampos pos_type; typedef std::streamoff off_type;
  virtual ~basic_streambuf() {}
  streamsize sputn(const C *s, streamsize n) { return xsputn(s, n); } int_type sputc(C c) { return xsputn(&c, 1) == 1 ? T::to_int_type(c) : T::eof(); } int pubsync() { return sync(); }
  int_type sbumpc() { return uflow(); } int_type sgetc() { return underflow(); }
protected:
  virtual streamsize xsputn(const C *s, streamsize n) { streamsize i = 0; for (; i < n; i++) if (T::eq_int_type(overflow(T::to_int_type(s[i])), T::eof())) break; return i; }
  virtual int_type overflow(int_type = T::eof()) { return T::eof(); } virtual int sync() { return 0; } virtual int_type underflow() { return T::eof(); } virtual int_type uflow() { return T::eof(); }
};
template <class C, class T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef std::streampos pos_type; typedef std::streamoff off_type;
  explicit basic_ios(basic_streambuf<C, T> *b) : sb(b) {}
  bool good() const { return st == 0; } bool bad() const { return st & badbit; } bool fail() const { return st & (badbit | failbit); } bool eof() const { return st & eofbit; } explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  iostate rdstate() const { return st; } void clear(iostate s = goodbit) { st = s; } void setstate(iostate s) { st |= s; } void exceptions(iostate) {} iostate exceptions() const { return 0; }
  basic_streambuf<C, T> *rdbuf() const { return sb; } basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *b) { auto o = sb; sb = b; return o; }
  C fill() const { return fc; } C fill(C c) { C o = fc; fc = c; return o; } C widen(char c) const { return (C)c; } char narrow(C c, char) const { return (char)c; }
  basic_ios &copyfmt(const basic_ios &o) { fl = o.fl; pr = o.pr; wd = o.wd; fc = o.fc; return *this; } basic_ostream<C, T> *tie() const { return nullptr; } basic_ostream<C, T> *tie(basic_ostream<C, T> *) { return nullptr; }
protected:
  basic_ios() {} void init(basic_streambuf<C, T> *b) { sb = b; }
  basic_streambuf<C, T> *sb = nullptr; iostate st = 0; C fc = C(' ');
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef basic_ostream Self; using typename basic_ios<C, T>::ios_base;
  explicit basic_ostream(basic_streambuf<C, T> *b) { this->init(b); }
  struct sentry { explicit sentry(basic_ostream &) {} explicit operator bool() const { return true; } };
  Self &write(const C *s, streamsize n) { if (this->sb && this->good()) { if (this->sb->sputn(s, n) != n) this->setstate(ios_base::badbit); } else this->setstate(ios_base::badbit); return *this; }
  Self &put(C c) { return write(&c, 1); } Self &flush() { if (this->sb) this->sb->pubsync(); return *this; }
  Self &sx_padded(const C *s, streamsize n, streamsize head = 0) { streamsize w = this->width(0), k = w > n ? w - n : 0; C f = this->fill(); auto adj = this->flags() & ios_base::adjustfield;
    if (adj == ios_base::left) { write(s, n); while (k-- > 0) put(f); } else if (adj == ios_base::internal) { write(s, head); while (k-- > 0) put(f); write(s + head, n - head); } else { while (k-- > 0) put(f); write(s, n); } return *this; }
  Self &sx_num(unsigned long long v, bool neg, bool isSigned) { C b[72]; int n = 0; unsigned base = this->flags() & ios_base::hex ? 16 : this->flags() & ios_base::oct ? 8 : 10; bool up = this->flags() & ios_base::uppercase; int head = 0;
    if (base == 10 && neg) v = 0ull - v; unsigned long long q = v; do { unsigned d = (unsigned)(q % base); b[n++] = (C)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); q /= base; } while (q);
    if (base == 10 && neg) { b[n++] = (C)'-'; head = 1; } else if (base == 10 && isSigned && (this->flags() & ios_base::showpos)) { b[n++] = (C)'+'; head = 1; } else if ((this->flags() & ios_base::showbase) && v && base == 16) { b[n++] = (C)(up ? 'X' : 'x'); b[n++] = (C)'0'; head = 2; } else if ((this->flags() & ios_base::showbase) && v && base == 8) b[n++] = (C)'0';
    for (int i = 0; i < n / 2; i++) { C t = b[i]; b[i] = b[n - 1 - i]; b[n - 1 - i] = t; } return sx_padded(b, n, head); }
  Self &operator<<(bool v) { if (this->flags() & ios_base::boolalpha) { const char *s = v ? "true" : "false"; C b[6]; int n = 0; for (; s[n]; n++) b[n] = (C)s[n]; return sx_padded(b, n); } return sx_num(v, false, true); }
  Self &operator<<(short v) { if (!(this->flags() & (ios_base::hex | ios_base::oct))) return sx_num((long long)v, v < 0, true); return sx_num((unsigned short)v, false, true); }
  Self &operator<<(int v) { if (!(this->flags() & (ios_base::hex | ios_base::oct))) return sx_num((long long)v, v < 0, true); return sx_num((unsigned)v, false, true); }
  Self &operator<<(long v) { return sx_num(v, v < 0, true); } Self &operator<<(long long v) { return sx_num(v, v < 0, true); }
  Self &operator<<(unsigned short v) { return sx_num(v, false, false); } Self &operator<<(unsigned v) { return sx_num(v, false, false); } Self &operator<<(unsigned long v) { return sx_num(v, false, false); } Self &operator<<(unsigned long long v) { return sx_num(v, false, false); }
  Self &operator<<(double v) { char b[400]; auto ff = this->flags() & ios_base::floatfield; int n = sx_fmt_double(b, sizeof b, ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? 'e' : 'g', (int)this->precision(), v); C w[400]; for (int i = 0; i < n; i++) w[i] = (C)b[i]; return sx_padded(w, n, n && (b[0] == '-')); }
  Self &operator<<(float v) { return *this << (double)v; } Self &operator<<(long double v) { return *this << (double)v; }
  Self &operator<<(const void *p) { if (!p) { C z = (C)'0'; return sx_padded(&z, 1); } auto f = this->flags((this->flags() & ~ios_base::basefield) | ios_base::hex | ios_base::showbase); sx_num((unsigned long long)p, false, false); this->flags(f); return *this; }
  Self &operator<<(nullptr_t) { C s[7] = {'n', 'u', 'l', 'l', 'p', 't', 'r'}; return sx_padded(s, 7); }
  Self &operator<<(basic_streambuf<C, T> *b) { for (auto c = b->sbumpc(); !T::eq_int_type(c, T::eof()); c = b->sbumpc()) put(T::to_char_type(c)); return *this; }
  Self &operator<<(Self &(*f)(Self &)) { return f(*this); } Self &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; } Self &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  std::streampos tellp() { return std::streampos(0); } Self &seekp(std::streampos) { return *this; }
protected:
  basic_ostream() {}
};
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, C c) { return o.sx_padded(&c, 1); }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, const C *s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o.sx_padded(s, (streamsize)T::length(s)); }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { return o << (char)c; }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { return o << (char)c; }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const unsigned char *c) { return o << (const char *)c; }
template <class T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const signed char *c) { return o << (const char *)c; }
template <class S, class V, class = typename enable_if<!is_lvalue_reference<S>::value && is_base_of<ios_base, typename remove_reference<S>::type>::value>::type> inline S &&operator<<(S &&o, const V &v) { o << v; return static_cast<S &&>(o); }
template <class C, class T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put((C)'\n'); return o.flush(); }
template <class C, class T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(C()); }
template <class C, class T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }
#define SXMAN(n, f, m) inline ios_base &n(ios_base &b) { b.setf(ios_base::f, ios_base::m); return b; }
SXMAN(dec, dec, basefield) SXMAN(hex, hex, basefield) SXMAN(oct, oct, basefield) SXMAN(fixed, fixed, floatfield) SXMAN(scientific, scientific, floatfield) SXMAN(left, left, adjustfield) SXMAN(right, right, adjustfield) SXMAN(internal, internal, adjustfield)
SXMAN(boolalpha, boolalpha, boolalpha) SXMAN(showbase, showbase, showbase) SXMAN(showpos, showpos, showpos) SXMAN(uppercase, uppercase, uppercase) SXMAN(skipws, skipws, skipws) SXMAN(unitbuf, unitbuf, unitbuf)
#undef SXMAN
#define SXUN(n, f) inline ios_base &n(ios_base &b) { b.unsetf(ios_base::f); return b; }
SXUN(noboolalpha, boolalpha) SXUN(noshowbase, showbase) SXUN(noshowpos, showpos) SXUN(nouppercase, uppercase) SXUN(noskipws, skipws) SXUN(nounitbuf, unitbuf) SXUN(defaultfloat, floatfield)
#undef SXUN
struct sx_setw { int n; }; struct sx_setprec { int n; }; template <class C> struct sx_setfill { C c; }; struct sx_setbase { int n; }; struct sx_setf { ios_base::fmtflags f; };
inline sx_setw setw(int n) { return {n}; } inline sx_setprec setprecision(int n) { return {n}; } template <class C> inline sx_setfill<C> setfill(C c) { return {c}; } inline sx_setbase setbase(int n) { return {n}; } inline sx_setf setiosflags(ios_base::fmtflags f) { return {f}; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sx_setw w) { o.width(w.n); return o; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sx_setprec w) { o.precision(w.n); return o; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sx_setfill<C> w) { o.fill(w.c); return o; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sx_setbase w) { o.setf(w.n == 16 ? ios_base::hex : w.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
template <class C, class T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, sx_setf w) { o.setf(w.f); return o; }
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef basic_istream Self; using typename basic_ios<C, T>::int_type;
  explicit basic_istream(basic_streambuf<C, T> *b) { this->init(b); }
  streamsize gcount() const { return gc; }
  int_type get() { int_type c = this->sb ? this->sb->sbumpc() : T::eof(); gc = !T::eq_int_type(c, T::eof()); if (!gc) this->setstate(ios_base::eofbit | ios_base::failbit); return c; }
  Self &get(C &c) { int_type r = get(); if (gc) c = T::to_char_type(r); return *this; } int_type peek() { int_type c = this->sb ? this->sb->sgetc() : T::eof(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); return c; }
  Self &read(C *s, streamsize n) { for (gc = 0; gc < n;) { int_type c = this->sb->sbumpc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit | ios_base::failbit); break; } s[gc++] = T::to_char_type(c); } return *this; }
  Self &ignore(streamsize n = 1) { while (n-- > 0 && !T::eq_int_type(this->sb->sbumpc(), T::eof())); return *this; }
  bool sx_skip() { if (!this->good()) { this->setstate(ios_base::failbit); return false; } if (this->flags() & ios_base::skipws) for (;;) { int_type c = this->sb->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; } C x = T::to_char_type(c); if (x != ' ' && x != '\t' && x != '\n' && x != '\r') break; this->sb->sbumpc(); } return true; }
  template <class I> Self &sx_int(I &v) { if (!sx_skip()) return *this; bool neg = false, any = false; unsigned long long r = 0; int_type c = this->sb->sgetc(); if (c == '-' || c == '+') { neg = c == '-'; this->sb->sbumpc(); }
    for (;;) { c = this->sb->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; } if (c < '0' || c > '9') break; any = true; r = r * 10 + (unsigned)(c - '0'); this->sb->sbumpc(); } if (any) v = (I)(neg ? 0ull - r : r); else { v = 0; this->setstate(ios_base::failbit); } return *this; }
  Self &operator>>(int &v) { return sx_int(v); } Self &operator>>(unsigned &v) { return sx_int(v); } Self &operator>>(long &v) { return sx_int(v); } Self &operator>>(unsigned long &v) { return sx_int(v); } Self &operator>>(long long &v) { return sx_int(v); } Self &operator>>(unsigned long long &v) { return sx_int(v); } Self &operator>>(short &v) { return sx_int(v); } Self &operator>>(unsigned short &v) { return sx_int(v); }
  Self &operator>>(Self &(*f)(Self &)) { return f(*this); } Self &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
protected:
  basic_istream() {} streamsize gc = 0;
};
template <class C, class T> inline basic_istream<C, T> &operator>>(basic_istream<C, T> &i, C &c) { if (i.sx_skip()) i.get(c); return i; }
template <class T, class A> inline basic_istream<char, T> &operator>>(basic_istream<char, T> &i, basic_string<char, T, A> &s) { s.clear(); if (!i.sx_skip()) return i; for (;;) { auto c = i.rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) { i.setstate(ios_base::eofbit); break; } char x = T::to_char_type(c); if (x == ' ' || x == '\t' || x == '\n' || x == '\r') break; s += x; i.rdbuf()->sbumpc(); } return i; }
template <class T, class A> inline basic_istream<char, T> &getline(basic_istream<char, T> &i, basic_string<char, T, A> &s, char d) { s.clear(); if (!i.good()) { i.setstate(ios_base::failbit); return i; } bool any = false; for (;;) { auto c = i.rdbuf()->sbumpc(); if (T::eq_int_type(c, T::eof())) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; } any = true; char x = T::to_char_type(c); if (x == d) break; s += x; } return i; }
template <class T, class A> inline basic_istream<char, T> &getline(basic_istream<char, T> &i, basic_string<char, T, A> &s) { return getline(i, s, '\n'); }
template <class C, class T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { i.sx_skip(); return i; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: explicit basic_iostream(basic_streambuf<C, T> *b) : basic_istream<C, T>(b), basic_ostream<C, T>(b) {} protected: basic_iostream() {} };
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
  typedef typename basic_streambuf<C, T>::int_type int_type; typedef basic_string<C, T, A> Str;
  basic_stringbuf() {} explicit basic_stringbuf(const Str &s, ios_base::openmode m = ios_base::in | ios_base::out) : d(s), w(m & (ios_base::ate | ios_base::app) ? s.size() : 0) {} explicit basic_stringbuf(ios_base::openmode) {}
  Str str() const { return d; } void str(const Str &s) { d = s; r = w = 0; }
protected:
  streamsize xsputn(const C *s, streamsize n) override { if (w == d.size()) d.append(s, (size_t)n); else { size_t k = d.size() - w < (size_t)n ? d.size() - w : (size_t)n; d.replace(w, k, s, (size_t)n); } w += (size_t)n; return n; }
  int_type overflow(int_type c = T::eof()) override { if (T::eq_int_type(c, T::eof())) return T::not_eof(c); C x = T::to_char_type(c); xsputn(&x, 1); return c; }
  int_type underflow() override { return r < d.size() ? T::to_int_type(d[r]) : T::eof(); } int_type uflow() override { return r < d.size() ? T::to_int_type(d[r++]) : T::eof(); }
private: Str d; size_t r = 0, w = 0;
};
#define SXSS(NAME, BASE, DEF) template <class C, class T, class A> class NAME : public BASE<C, T> { basic_stringbuf<C, T, A> b; public: typedef basic_string<C, T, A> Str; \
  NAME() { this->init(&b); } explicit NAME(ios_base::openmode) { this->init(&b); } explicit NAME(const Str &s, ios_base::openmode m = DEF) : b(s, m) { this->init(&b); } \
  NAME(NAME &&o) : b(o.b) { this->init(&b); this->copyfmt(o); } NAME &operator=(NAME &&o) { b = o.b; return *this; } \
  basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&b); } Str str() const { return b.str(); } void str(const Str &s) { b.str(s); } };
SXSS(basic_ostringstream, basic_ostream, ios_base::out) SXSS(basic_istringstream, basic_istream, ios_base::in) SXSS(basic_stringstream, basic_iostream, (ios_base::in | ios_base::out))
#undef SXSS
struct sx_console : basic_streambuf<char> { streamsize xsputn(const char *s, streamsize n) override { if (n > 0) sx_write_stdout(s, (size_t)n); return n; } int_type overflow(int_type c = -1) override { if (c == -1) return 0; char x = (char)c; sx_write_stdout(&x, 1); return c; } };
inline sx_console sx_console_buf; inline ostream cout(&sx_console_buf), cerr(&sx_console_buf), clog(&sx_console_buf); inline istream cin(nullptr);
}
}
