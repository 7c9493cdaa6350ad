// Model of the C++ stream library used when the code is encoded: same interface and semantics as the parts of
// libstdc++ the repository uses, but header-only so that the whole computation is visible to the solver.
// (Native replays and trace validation run against the real libstdc++.)
#pragma once
#include <bits/c++config.h>
#include <iosfwd>
#include <string>
#include <exception>
#include <stdexcept>
#include <limits>
#include <type_traits>
#include <vector>
#include <cstring>
#include <cstdint>
#include <bits/localefwd.h>
extern "C" { unsigned long sx_conc(unsigned long); void sx_fail(const char *); const char *sx_vfs_find(const char *name, unsigned long *len); void sx_vfs_put(const char *name, const char *data, unsigned long len); int sx_vfs_open_ok(const char *name); extern int sx_errno; }
namespace std {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 32 | 128 | 16, basefield = 2 | 8 | 64, floatfield = 4 | 256;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  class failure : public runtime_error { public: explicit failure(const char *s) : runtime_error(s) {} explicit failure(const string &s) : runtime_error(s) {} };
  class Init { public: Init() {} ~Init() {} };
  fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { auto o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { auto o = fl_; fl_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl_ &= ~f; }
  streamsize width() const { return w_; } streamsize width(streamsize w) { auto o = w_; w_ = w; return o; }
  streamsize precision() const { return p_; } streamsize precision(streamsize w) { auto o = p_; p_ = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
protected:
  ios_base() {}
  fmtflags fl_ = skipws | dec; streamsize w_ = 0, p_ = 6;
};
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }
inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &unitbuf(ios_base &b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base &nounitbuf(ios_base &b) { b.unsetf(ios_base::unitbuf); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }

template <class C, class T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef int int_type; typedef long pos_type; typedef long off_type;
  virtual ~basic_streambuf() {}
  // get side: g_ holds the remaining characters; put side: appended to s_ (they are separate unless str() resets)
  basic_string<C, T> s_; size_t pos_ = 0, put_ = (size_t)-1; /* put_: where the next character goes, when not at the end */ bool rd_ = true, wr_ = true; bool shared_ = true;
  int_type sgetc() { return !rd_ || pos_ >= s_.size() ? -1 : (int)(unsigned char)s_[pos_]; }
  int_type sbumpc() { int_type c = sgetc(); if (c != -1) ++pos_; return c; }
  int_type snextc() { return sbumpc() == -1 ? -1 : sgetc(); }
  void stossc() { sbumpc(); }
  int_type sungetc() { return pos_ == 0 ? -1 : (int)(unsigned char)s_[--pos_]; }
  int_type sputbackc(C c) { return pos_ == 0 || s_[pos_ - 1] != c ? -1 : (int)(unsigned char)s_[--pos_]; }
  streamsize sgetn(C *d, streamsize n) { if (!rd_) return 0; size_t left = pos_ < s_.size() ? s_.size() - pos_ : 0; size_t k = (size_t)n < left ? (size_t)n : left; if (n <= 0) return 0; if (k) memcpy(d, s_.data() + pos_, k); pos_ += k; return (streamsize)k; }
  streamsize in_avail() { return rd_ && pos_ < s_.size() ? (streamsize)(s_.size() - pos_) : -1; }
  int_type sputc(C c) { if (!wr_) return -1; if (put_ < s_.size()) s_[put_++] = c; else { put_ = (size_t)-1; s_.push_back(c); } return (int)(unsigned char)c; }
  streamsize sputn(const C *d, streamsize n) { if (!wr_) return 0; if (put_ < s_.size()) { for (streamsize i = 0; i < n; i++) sputc(d[i]); return n; } s_.append(d, (size_t)n); return n; }
  int pubsync() { return 0; }
  long pubseekoff(long off, int dir) { long b = dir == ios_base::beg ? 0 : dir == ios_base::cur ? (long)pos_ : (long)s_.size(); long p = b + off; if (p < 0 || p > (long)s_.size()) return -1; pos_ = (size_t)p; return p; }
};
template <class C, class T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef int int_type; typedef long pos_type; typedef long off_type;
  typedef basic_streambuf<C, T> sb;
  explicit basic_ios(sb *b) { init(b); }
  basic_ios() {}
  void init(sb *b) { sb_ = b; st_ = b ? goodbit : badbit; }
  iostate rdstate() const { return st_; }
  void clear(iostate s = goodbit) { st_ = sb_ ? s : s | badbit; if (st_ & ex_) throw failure("basic_ios::clear"); }
  void setstate(iostate s) { clear(rdstate() | s); } void _M_setstate(iostate s) { st_ |= s; if (ex_ & s) throw; }
  bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (badbit | failbit); } bool bad() const { return st_ & badbit; }
  iostate exceptions() const { return ex_; } void exceptions(iostate e) { ex_ = e; clear(st_); }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  sb *rdbuf() const { return sb_; } sb *rdbuf(sb *b) { auto o = sb_; sb_ = b; clear(); return o; }
  C fill() const { return fill_; } C fill(C c) { auto o = fill_; fill_ = c; return o; }
  C widen(char c) const { return c; } char narrow(C c, char) const { return c; }
  basic_ostream<C, T> *tie() const { return nullptr; } basic_ostream<C, T> *tie(basic_ostream<C, T> *) { return nullptr; }
protected:
  sb *sb_ = nullptr; iostate st_ = badbit, ex_ = 0; C fill_ = ' ';
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef ios_base::iostate iostate; typedef std::ios_base ios_base;
  class sentry { bool ok_; public: explicit sentry(basic_ostream &o) { ok_ = o.good(); if (!ok_) o.setstate(ios_base::failbit); } explicit operator bool() const { return ok_; } };
  explicit basic_ostream(basic_streambuf<C, T> *b) { this->init(b); }
  basic_ostream &put(C c) { sentry s(*this); if (s && this->rdbuf()->sputc(c) == -1) this->setstate(ios_base::badbit); return *this; }
  basic_ostream &write(const C *d, streamsize n) { sentry s(*this); if (s && this->rdbuf()->sputn(d, n) != n) this->setstate(ios_base::badbit); return *this; }
  basic_ostream &flush() { return *this; }
  long tellp() { auto *b = this->rdbuf(); return this->fail() ? -1 : (long)(b->put_ < b->s_.size() ? b->put_ : b->s_.size()); }
  basic_ostream &seekp(long p) { if (!this->fail()) { auto *b = this->rdbuf(); if (p < 0 || p > (long)b->s_.size()) this->setstate(ios_base::failbit); else b->put_ = (size_t)p; } return *this; }
  basic_ostream &seekp(long p, int d) { auto *b = this->rdbuf(); return seekp(p + (d == ios_base::beg ? 0 : d == ios_base::cur ? tellp() : (long)b->s_.size())); }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &operator<<(bool b) { if (this->flags() & ios_base::boolalpha) return ins(b ? "true" : "false", b ? 4 : 5); return uns(b, false); }
  basic_ostream &operator<<(short v) { return sgn(v, 0xffff); } basic_ostream &operator<<(int v) { return sgn(v, 0xffffffff); } basic_ostream &operator<<(long v) { return sgn(v); } basic_ostream &operator<<(long long v) { return sgn(v); }
  basic_ostream &operator<<(unsigned short v) { return uns(v, false); } basic_ostream &operator<<(unsigned v) { return uns(v, false); } basic_ostream &operator<<(unsigned long v) { return uns(v, false); } basic_ostream &operator<<(unsigned long long v) { return uns(v, false); }
  // whole numbers as they are; other values as a placeholder that depends on the value alone (texts are only compared with texts built in the same way)
  basic_ostream &operator<<(double v) { unsigned long b; memcpy(&b, &v, 8); b = sx_conc(b); memcpy(&v, &b, 8); if (v >= -999999. && v <= 999999. && (double)(long)v == v) return sgn((long)v); char t[17]; t[0] = '~'; for (int i = 0; i < 16; i++) t[1 + i] = "0123456789abcdef"[(b >> (60 - 4 * i)) & 15]; return ins(t, 17); }
  basic_ostream &operator<<(const void *) { return ins("0xptr", 5); }
  basic_ostream &operator<<(basic_streambuf<C, T> *b) { sentry s(*this); if (s) { size_t n = 0; int c; while ((c = b->sbumpc()) != -1) { this->rdbuf()->sputc((char)c); n++; } if (!n) this->setstate(ios_base::failbit); } return *this; }
protected:
  basic_ostream() {}
private:
  basic_ostream &ins(const char *p, size_t n) { return __ostream_insert(*this, p, (streamsize)n); }
  basic_ostream &sgn(long v, unsigned long m = ~0ul) { auto bf = this->flags() & ios_base::basefield; if (bf == ios_base::hex || bf == ios_base::oct) return uns((unsigned long)v & m, false); return v < 0 ? uns(0ul - (unsigned long)v, true, true) : uns((unsigned long)v, false, true); }
  basic_ostream &uns(unsigned long v, bool neg, bool sg = false) {
    char b[32]; char *e = b + 32, *p = e; auto bf = this->flags() & ios_base::basefield; bool up = this->flags() & ios_base::uppercase, sb = (this->flags() & ios_base::showbase) && v;
    if (bf == ios_base::hex) { do { unsigned d = (unsigned)(v & 15); *--p = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v >>= 4; } while (v); if (sb) { *--p = up ? 'X' : 'x'; *--p = '0'; } return ins(p, (size_t)(e - p)); }
    if (bf == ios_base::oct) { do { *--p = (char)('0' + (v & 7)); v >>= 3; } while (v); if (sb) *--p = '0'; return ins(p, (size_t)(e - p)); }
    while (v >= 10) { *--p = (char)('0' + v % 10); v /= 10; } *--p = (char)('0' + v);
    if (neg) *--p = '-'; else if (sg && (this->flags() & ios_base::showpos)) *--p = '+';
    return ins(p, (size_t)(e - p)); }
};
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return __ostream_insert(o, &c, 1); }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = (char)c; return __ostream_insert(o, &d, 1); }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = (char)c; return __ostream_insert(o, &d, 1); }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!s) o.setstate(ios_base::badbit); else __ostream_insert(o, s, (streamsize)strlen(s)); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const unsigned char *s) { return o << (const char *)s; }
template <class OS, class X, class = typename enable_if<!is_lvalue_reference<OS>::value && is_base_of<ios_base, OS>::value>::type> OS &&operator<<(OS &&o, const X &x) { o << x; return (OS &&)o; }
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put('\0'); }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
inline bool sx_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }

template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef C char_type; typedef T traits_type; typedef int int_type; typedef ios_base::iostate iostate; typedef std::ios_base ios_base;
  class sentry {
    bool ok_ = false;
  public:
    explicit sentry(basic_istream &i, bool noskip = false) {
      iostate e = 0;
      if (i.good()) {
        if (!noskip && (i.flags() & ios_base::skipws)) { auto *b = i.rdbuf(); int c = b->sgetc(); while (c != -1 && sx_isspace(c)) c = b->snextc(); if (c == -1) e |= ios_base::eofbit; }
      }
      if (i.good() && !e) ok_ = true; else { e |= ios_base::failbit; i.setstate(e); }
    }
    explicit operator bool() const { return ok_; }
  };
  explicit basic_istream(basic_streambuf<C, T> *b) { this->init(b); }
  streamsize gcount() const { return gc_; }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_istream &operator>>(bool &v) { unsigned long x = 0; if (num<unsigned long>(x)) { if (x > 1) { this->setstate(ios_base::failbit); v = true; } else v = x; } else v = false; return *this; }
  basic_istream &operator>>(short &v) { return small(v); } basic_istream &operator>>(int &v) { return small(v); }
  basic_istream &operator>>(long &v) { num<long>(v); return *this; } basic_istream &operator>>(long long &v) { num<long long>(v); return *this; }
  basic_istream &operator>>(unsigned short &v) { num<unsigned short>(v); return *this; } basic_istream &operator>>(unsigned &v) { num<unsigned>(v); return *this; }
  basic_istream &operator>>(unsigned long &v) { num<unsigned long>(v); return *this; } basic_istream &operator>>(unsigned long long &v) { num<unsigned long long>(v); return *this; }
  basic_istream &operator>>(double &) { sx_fail("model: floating-point input"); return *this; } basic_istream &operator>>(float &) { sx_fail("model: floating-point input"); return *this; }
  int_type get() { gc_ = 0; int c = -1; sentry s(*this, true); if (s) { c = this->rdbuf()->sbumpc(); if (c != -1) gc_ = 1; else this->setstate(ios_base::eofbit | ios_base::failbit); } else {} return c; }
  basic_istream &get(C &ch) { gc_ = 0; sentry s(*this, true); if (s) { int c = this->rdbuf()->sbumpc(); if (c != -1) { gc_ = 1; ch = (C)c; } else this->setstate(ios_base::eofbit | ios_base::failbit); } return *this; }
  int_type peek() { gc_ = 0; int c = -1; sentry s(*this, true); if (s) { c = this->rdbuf()->sgetc(); if (c == -1) this->setstate(ios_base::eofbit); } return c; }
  basic_istream &unget() { gc_ = 0; this->clear(this->rdstate() & ~ios_base::eofbit); sentry s(*this, true); if (s && this->rdbuf()->sungetc() == -1) this->setstate(ios_base::badbit); return *this; }
  basic_istream &putback(C c) { gc_ = 0; this->clear(this->rdstate() & ~ios_base::eofbit); sentry s(*this, true); if (s && this->rdbuf()->sputbackc(c) == -1) this->setstate(ios_base::badbit); return *this; }
  basic_istream &ignore(streamsize n = 1, int_type delim = -1) {
    gc_ = 0; sentry s(*this, true); if (!s || n <= 0) return *this;
    bool inf = n == numeric_limits<streamsize>::max(); auto *b = this->rdbuf(); 
    for (;;) { if (!inf && gc_ >= n) break; int c = b->sgetc(); if (c == -1) { this->setstate(ios_base::eofbit); break; } b->sbumpc(); ++gc_; if (c == delim) break; }
    return *this; }
  basic_istream &read(C *d, streamsize n) { gc_ = 0; sentry s(*this, true); if (s) { gc_ = this->rdbuf()->sgetn(d, n); if (gc_ != n) this->setstate(ios_base::eofbit | ios_base::failbit); } return *this; }
  streamsize readsome(C *d, streamsize n) { gc_ = 0; sentry s(*this, true); if (s) { streamsize a = this->rdbuf()->in_avail(); if (a > 0) gc_ = this->rdbuf()->sgetn(d, a < n ? a : n); else if (a == -1) this->setstate(ios_base::eofbit); } return gc_; }
  basic_istream &getline(C *d, streamsize n) { return getline(d, n, '\n'); }
  basic_istream &getline(C *d, streamsize n, C delim) {
    gc_ = 0; iostate e = 0; sentry s(*this, true); streamsize k = 0;
    if (s) { auto *b = this->rdbuf(); int c = b->sgetc(); while (k + 1 < n && c != -1 && (C)c != delim) { d[k++] = (C)c; c = b->snextc(); gc_++; } if (c == -1) e |= ios_base::eofbit; else if ((C)c == delim) { b->sbumpc(); gc_++; } else e |= ios_base::failbit; }
    if (n > 0) d[k] = 0; if (!gc_) e |= ios_base::failbit; if (e) this->setstate(e); return *this; }
  basic_istream &seekg(long p) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail() && this->rdbuf()->pubseekoff(p, 0) == -1) this->setstate(ios_base::failbit); return *this; }
  basic_istream &seekg(long p, int d) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail() && this->rdbuf()->pubseekoff(p, d) == -1) this->setstate(ios_base::failbit); return *this; }
  long tellg() { return this->fail() ? -1 : (long)this->rdbuf()->pos_; }
  int sync() { return 0; }
protected:
  basic_istream() {}
private:
  streamsize gc_ = 0;
  template <class I> basic_istream &small(I &v) { long x = 0; bool had = false; { iostate b = this->rdstate(); (void)b; } had = num<long>(x, true); if (!had) return *this; if (x < numeric_limits<I>::min()) { v = numeric_limits<I>::min(); this->setstate(ios_base::failbit); } else if (x > numeric_limits<I>::max()) { v = numeric_limits<I>::max(); this->setstate(ios_base::failbit); } else v = (I)x; return *this; }
  // returns true when an extraction was attempted (num_get semantics: 0 stored on failure)
  template <class I> bool num(I &v, bool attempt = false) {
    typedef typename make_unsigned<I>::type U; sentry s(*this, false); if (!s) return false;
    iostate err = 0; auto *b = this->rdbuf(); int c = b->sgetc(); bool neg = false, any = false, zero = false, over = false; U r = 0;
    if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); }
    auto bf = this->flags() & ios_base::basefield; unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10;
    if (base != 16 && bf) while (c == '0') { zero = true; c = b->snextc(); }
    else if (c == '0') { zero = true; c = b->snextc(); if (base == 16 || !bf) { if (c == 'x' || c == 'X') { zero = false; base = 16; c = b->snextc(); } else if (!bf) base = 8; } while (c == '0') { zero = true; c = b->snextc(); } }
    const U maxv = neg && numeric_limits<I>::is_signed ? (U)((U)numeric_limits<I>::max() + 1) : (U)numeric_limits<I>::max(); const U smax = maxv / (U)base;
    for (;;) {
      unsigned d; if (c >= '0' && c <= '9') d = (unsigned)(c - '0'); else if (base == 16 && c >= 'a' && c <= 'f') d = (unsigned)(c - 'a' + 10); else if (base == 16 && c >= 'A' && c <= 'F') d = (unsigned)(c - 'A' + 10); else break;
      if (d >= base) break; any = true;
      if (r > smax) over = true; else { r = (U)(r * (U)base); over |= r > (U)(maxv - d); r = (U)(r + d); }
      c = b->snextc(); }
    if (c == -1) err |= ios_base::eofbit;
    if (!any && !zero) { v = 0; err |= ios_base::failbit; }
    else if (over) { v = neg && numeric_limits<I>::is_signed ? numeric_limits<I>::min() : numeric_limits<I>::max(); err |= ios_base::failbit; }
    else v = (I)(neg ? (U)(0 - r) : r);
    if (err) this->setstate(err);
    return true; }
};
template <class C, class T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { auto *b = i.rdbuf(); int c = b->sgetc(); while (c != -1 && sx_isspace(c)) c = b->snextc(); if (c == -1) i.setstate(ios_base::eofbit); return i; }
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &ch) { typename basic_istream<char, T>::sentry s(i, false); if (s) { int c = i.rdbuf()->sbumpc(); if (c != -1) ch = (char)c; else i.setstate(ios_base::eofbit | ios_base::failbit); } return i; }
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, unsigned char &ch) { char x = (char)ch; i >> x; ch = (unsigned char)x; return i; }
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, signed char &ch) { char x = (char)ch; i >> x; ch = (signed char)x; return i; }
template <class IS, class X, class = typename enable_if<!is_lvalue_reference<IS>::value && is_base_of<ios_base, IS>::value>::type> IS &&operator>>(IS &&i, X &&x) { i >> (X &&)x; return (IS &&)i; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
  explicit basic_iostream(basic_streambuf<C, T> *b) { this->init(b); }
protected:
  basic_iostream() {}
};
// ---- string streams
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> { public: basic_string<C, T, A> str() const { return this->s_; } void str(const basic_string<C, T, A> &s) { this->s_ = s; this->pos_ = 0; this->put_ = 0; } };
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { basic_stringbuf<C, T, A> b_; public:
  explicit basic_istringstream(unsigned = 0) { this->init(&b_); b_.wr_ = false; } explicit basic_istringstream(const basic_string<C, T, A> &s, unsigned = 0) { this->init(&b_); b_.str(s); b_.wr_ = false; }
  basic_string<C, T, A> str() const { return b_.str(); } void str(const basic_string<C, T, A> &s) { b_.str(s); } basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&b_); } };
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { basic_stringbuf<C, T, A> b_; public:
  explicit basic_ostringstream(unsigned = 0) { this->init(&b_); b_.rd_ = false; } explicit basic_ostringstream(const basic_string<C, T, A> &s, unsigned m = 0) { this->init(&b_); b_.str(s); if (m & (ios_base::app | ios_base::ate)) b_.put_ = (size_t)-1; b_.rd_ = false; }
  basic_string<C, T, A> str() const { return b_.str(); } void str(const basic_string<C, T, A> &s) { b_.str(s); } basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&b_); } };
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> { basic_stringbuf<C, T, A> b_; public:
  explicit basic_stringstream(unsigned = 0) { this->init(&b_); } explicit basic_stringstream(const basic_string<C, T, A> &s, unsigned m = 0) { this->init(&b_); b_.str(s); if (m & (ios_base::app | ios_base::ate)) b_.put_ = (size_t)-1; }
  basic_string<C, T, A> str() const { return b_.str(); } void str(const basic_string<C, T, A> &s) { b_.str(s); } basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&b_); } };
_GLIBCXX_END_NAMESPACE_CXX11
// ---- file streams over the virtual file system of the harness
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> {
  basic_string<C, T> name_; bool open_ = false, w_ = false;
public:
  basic_filebuf() { this->rd_ = this->wr_ = false; } ~basic_filebuf() { close(); }
  bool is_open() const { return open_; }
  basic_filebuf *open(const char *n, unsigned m) {
    if (open_) return nullptr;
    if (m & ios_base::in) { unsigned long l; const char *d = sx_vfs_find(n, &l); if (!d) { sx_errno = 2; return nullptr; } this->s_.assign(d, l); this->pos_ = 0; this->rd_ = true; }
    if (m & ios_base::out) { if (!sx_vfs_open_ok(n)) { sx_errno = 2; return nullptr; } this->wr_ = true; w_ = true; if (!(m & ios_base::in)) { this->s_.clear(); if (m & ios_base::app) { unsigned long l; const char *d = sx_vfs_find(n, &l); if (d) this->s_.assign(d, l); } } }
    name_ = n; open_ = true; return this; }
  basic_filebuf *open(const string &n, unsigned m) { return open(n.c_str(), m); }
  basic_filebuf *close() { if (!open_) return nullptr; if (w_) sx_vfs_put(name_.c_str(), this->s_.data(), this->s_.size()); open_ = false; this->rd_ = this->wr_ = false; return this; } };
template <class C, class T> class basic_ifstream : public basic_istream<C, T> { basic_filebuf<C, T> b_; public:
  basic_ifstream() { this->init(&b_); } explicit basic_ifstream(const char *n, unsigned m = ios_base::in) { this->init(&b_); open(n, m); } explicit basic_ifstream(const string &n, unsigned m = ios_base::in) { this->init(&b_); open(n.c_str(), m); }
  void open(const char *n, unsigned m = ios_base::in) { if (!b_.open(n, m | ios_base::in)) this->setstate(ios_base::failbit); else this->clear(); } void open(const string &n, unsigned m = ios_base::in) { open(n.c_str(), m); }
  void close() { if (!b_.close()) this->setstate(ios_base::failbit); } bool is_open() const { return b_.is_open(); } basic_filebuf<C, T> *rdbuf() const { return const_cast<basic_filebuf<C, T> *>(&b_); } };
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> { basic_filebuf<C, T> b_; public:
  basic_ofstream() { this->init(&b_); } explicit basic_ofstream(const char *n, unsigned m = ios_base::out) { this->init(&b_); open(n, m); } explicit basic_ofstream(const string &n, unsigned m = ios_base::out) { this->init(&b_); open(n.c_str(), m); }
  void open(const char *n, unsigned m = ios_base::out) { if (!b_.open(n, m | ios_base::out)) this->setstate(ios_base::failbit); else this->clear(); } void open(const string &n, unsigned m = ios_base::out) { open(n.c_str(), m); }
  void close() { if (!b_.close()) this->setstate(ios_base::failbit); } bool is_open() const { return b_.is_open(); } basic_filebuf<C, T> *rdbuf() const { return const_cast<basic_filebuf<C, T> *>(&b_); } };
template <class C, class T> class basic_fstream : public basic_iostream<C, T> { basic_filebuf<C, T> b_; public:
  explicit basic_fstream(const char *n, unsigned m) { this->init(&b_); if (!b_.open(n, m)) this->setstate(ios_base::failbit); } };
extern ostream cout, cerr, clog; extern istream cin;
// ---- manipulators
struct sx_setw { int n; }; inline sx_setw setw(int n) { return {n}; } struct sx_setfill { char c; }; inline sx_setfill setfill(char c) { return {c}; } struct sx_setprec { int n; }; inline sx_setprec setprecision(int n) { return {n}; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, sx_setw s) { o.width(s.n); return o; } template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, sx_setfill s) { o.fill(s.c); return o; } template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, sx_setprec s) { o.precision(s.n); return o; }
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &o, sx_setw s) { o.width(s.n); return o; }
}
