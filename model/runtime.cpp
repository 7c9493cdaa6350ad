// C and C++ runtime functions the encoded code links against (model side; everything here is itself encoded).
#include "include/sx.h"
#include "include/sx_ios.hpp"
#include <map>
#include <new>
#include <sys/stat.h>
#include <sys/types.h>
#include <fcntl.h>
#include <functional>
#include <unordered_map>
#include <list>

// ---------------------------------------------------------------- exceptions thrown by the standard headers
namespace std {
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_cast() { sx_fail("bad_cast"); __builtin_unreachable(); }
void __throw_bad_optional_access(); 
void __throw_bad_optional_access() { throw runtime_error("bad optional access"); }
// ---------------------------------------------------------------- red-black tree support (std::map / std::set)
static _Rb_tree_node_base *local_inc(_Rb_tree_node_base *x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return local_inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return local_inc(const_cast<_Rb_tree_node_base *>(x)); }
static _Rb_tree_node_base *local_dec(_Rb_tree_node_base *x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return local_dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return local_dec(const_cast<_Rb_tree_node_base *>(x)); }
static void rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  auto *&root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    auto *xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { auto *y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); } }
    else { auto *y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); } }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  auto *&root = h._M_parent; auto *&leftmost = h._M_left; auto *&rightmost = h._M_right; auto *y = z; _Rb_tree_node_base *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { auto *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { auto *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } } }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) { auto *w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; } if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
      else { auto *w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; } if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
// ---------------------------------------------------------------- std::list / unordered support
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept { if (this == last) return; last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; auto *t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
void _List_node_base::_M_reverse() noexcept { auto *t = this; do { auto *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { auto a = x; x = y; y = a; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y = x; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x = y; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
namespace __detail {
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { if (n == 0) return 1; size_t i = 0, m = sizeof primes / sizeof *primes; if (n < 14) { static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; _M_next_resize = (size_t)(fast[n] * (double)_M_max_load_factor); return fast[n]; } while (i < m && primes[i] < n) i++; if (i == m) sx_fail("model: hash table too large"); _M_next_resize = (size_t)(primes[i] * (double)_M_max_load_factor); return primes[i]; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) { double mb = (double)max<size_t>(elt + ins, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor; if (mb >= (double)bkt) { size_t want = (size_t)mb + 1, dbl = bkt * 2; return {true, _M_next_bkt(want > dbl ? want : dbl)}; } _M_next_resize = (size_t)((double)bkt * (double)_M_max_load_factor); }
  return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + ((const unsigned char *)p)[i]; return h; }
// ---------------------------------------------------------------- std::string extraction
template <> basic_istream<char> &operator>>(basic_istream<char> &in, basic_string<char> &s) {
  ios_base::iostate err = 0; basic_istream<char>::sentry se(in, false); size_t k = 0;
  if (se) { s.erase(); streamsize w = in.width(); size_t lim = w > 0 ? (size_t)w : (size_t)-1; auto *b = in.rdbuf(); int c = b->sgetc();
    while (k < lim && c != -1 && !sx_isspace(c)) { s += (char)c; ++k; c = b->snextc(); }
    if (k < lim && c == -1) err |= ios_base::eofbit; in.width(0); }
  if (!k) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> basic_istream<char> &getline(basic_istream<char> &in, basic_string<char> &s, char delim) {
  ios_base::iostate err = 0; basic_istream<char>::sentry se(in, true); size_t k = 0;
  if (se) { s.erase(); auto *b = in.rdbuf(); int c = b->sgetc(); while (c != -1 && (char)c != delim) { s += (char)c; ++k; c = b->snextc(); } if (c == -1) err |= ios_base::eofbit; else { ++k; b->sbumpc(); } }
  if (!k) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template class basic_string<char>;
template ostream &__ostream_insert(ostream &, const char *, streamsize);
template ostream &operator<<(ostream &, const string &);
template istream &getline(istream &, string &);
static basic_streambuf<char, char_traits<char>> coutb, cerrb, cinb;
ostream cout(&coutb), cerr(&cerrb), clog(&cerrb); istream cin(&cinb);
}
#include <chrono>
#include "include/sxio.hpp"
std::string sx_cout_take() { std::string r = std::cout.rdbuf()->s_; std::cout.rdbuf()->s_.clear(); return r; }
std::string sx_cerr_take() { std::string r = std::cerr.rdbuf()->s_; std::cerr.rdbuf()->s_.clear(); return r; }
void sx_cin_set(const std::string &s) { std::cin.rdbuf()->s_ = s; std::cin.rdbuf()->pos_ = 0; std::cin.clear(); }
const std::nothrow_t std::nothrow{};
// ---------------------------------------------------------------- C library
struct VFile { const char *name; const char *data; unsigned long len; };
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { static long t; t += 1000000000; return time_point(duration(t)); } steady_clock::time_point steady_clock::now() noexcept { static long t; t += 1000000000; return time_point(duration(t)); } } } }
static VFile vfiles[32]; static int nvf; static int vfs_short; static unsigned long vfs_trunc; static int vfs_failm[3];
int sx_errno;
static bool streq(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
struct VFd { int file; unsigned long pos, len; };
static VFd vfds[8]; static int openFds;
extern "C" {
int sx_open_fds() { return openFds; }
extern const void *sx_exc_vtable[3]; static const char *exc_what(void *self) { return ((const char **)self)[1]; } static void exc_dtor(void *) {}
const void *sx_exc_vtable[3] = {(void *)exc_dtor, (void *)exc_dtor, (void *)exc_what};
int *__errno_location() { return &sx_errno; }
char *strerror(int) { static char m[] = "error"; return m; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
const void *sx_memchr(const void *p, int c, size_t n) asm("memchr");
const void *sx_memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; for (; n; n--, q++) if (*q == (unsigned char)c) return q; return 0; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
const char *sx_strchr(const char *s, int c) asm("strchr");
const char *sx_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return 0; } }
static unsigned long sx_strtox(const char *s, char **e, int base, bool *neg, bool *over) {
  const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; *neg = *p == '-'; if (*p == '-' || *p == '+') p++;
  auto dig = [&](char c) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; return d < base ? d : -1; };
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X')) { base = 16; if (dig(p[2]) >= 0) p += 2; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false; *over = false; for (int d; (d = dig(*p)) >= 0; p++) { any = true; if (v > (~0ul - (unsigned long)d) / (unsigned long)base) *over = true; else v = v * (unsigned long)base + (unsigned long)d; }
  if (e) *e = (char *)(any ? p : s); return v; }
unsigned long strtoul(const char *s, char **e, int base) { bool n, o; unsigned long v = sx_strtox(s, e, base, &n, &o); if (o) { sx_errno = 34; return ~0ul; } return n ? 0ul - v : v; }
unsigned long long strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
long strtol(const char *s, char **e, int base) { bool n, o; unsigned long v = sx_strtox(s, e, base, &n, &o); unsigned long lim = (1ul << 63) - (n ? 0 : 1); if (o || v > lim) { sx_errno = 34; return (long)lim; } return (long)(n ? 0ul - v : v); }
long long strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
unsigned long sx_iul(const char *s, char **e, int base) asm("strtoul"); unsigned long sx_iul(const char *s, char **e, int base) { return strtoul(s, e, base); }
unsigned long sx_iull(const char *s, char **e, int base) asm("strtoull"); unsigned long sx_iull(const char *s, char **e, int base) { return strtoul(s, e, base); }
long sx_il(const char *s, char **e, int base) asm("strtol"); long sx_il(const char *s, char **e, int base) { return strtol(s, e, base); }
long sx_ill(const char *s, char **e, int base) asm("strtoll"); long sx_ill(const char *s, char **e, int base) { return strtol(s, e, base); }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; } int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); } int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; } int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isalpha(int c) noexcept { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); } int isalnum(int c) noexcept { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); } int isprint(int c) noexcept { return c >= 32 && c < 127; } int iscntrl(int c) noexcept { return (c >= 0 && c < 32) || c == 127; } int isgraph(int c) noexcept { return c > 32 && c < 127; }
int ispunct(int c) noexcept { return c > 32 && c < 127 && !isalnum(c); } int isblank(int c) noexcept { return c == ' ' || c == 9; } int isxdigit(int c) noexcept { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; } int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
const char *sx_strrchr(const char *s, int c) asm("strrchr"); const char *sx_strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return r; } }
const char *sx_strstr(const char *h, const char *n) asm("strstr"); const char *sx_strstr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return h; if (!*h) return 0; } }
double floor(double x) { return __builtin_elementwise_floor(x); } double ceil(double x) { return __builtin_elementwise_ceil(x); } double trunc(double x) { return __builtin_elementwise_trunc(x); } double round(double x) { return __builtin_elementwise_round(x); } double rint(double x) { return __builtin_elementwise_rint(x); } double nearbyint(double x) { return __builtin_elementwise_nearbyint(x); } double sqrt(double x) { return __builtin_elementwise_sqrt(x); }
float floorf(float x) { return __builtin_elementwise_floor(x); } float ceilf(float x) { return __builtin_elementwise_ceil(x); } float truncf(float x) { return __builtin_elementwise_trunc(x); } float roundf(float x) { return __builtin_elementwise_round(x); } float sqrtf(float x) { return __builtin_elementwise_sqrt(x); }
long lround(double x) { return (long)__builtin_elementwise_round(x); } long lroundf(float x) { return (long)__builtin_elementwise_round(x); } long lrint(double x) { return (long)__builtin_elementwise_rint(x); } long lrintf(float x) { return (long)__builtin_elementwise_rint(x); }
double fmax(double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; } double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
long labs(long x) { return x < 0 ? -x : x; } long long llabs(long long x) { return x < 0 ? -x : x; }
int abs(int x) { return x < 0 ? -x : x; }
void sx_vfs_short_reads(int m) { vfs_short = m; } void sx_vfs_truncate(unsigned long by) { vfs_trunc = by; } void sx_vfs_fail(int w, int on) { vfs_failm[w] = on; }
int sx_vfs_open_ok(const char *n) { while (*n) if (*n++ == '/') return 0; return 1; }
void sx_vfs_put(const char *name, const char *data, unsigned long len) {
  char *d = (char *)__builtin_malloc(len + 1); __builtin_memcpy(d, data, len); 
  for (int i = 0; i < nvf; i++) if (streq(vfiles[i].name, name)) { vfiles[i].data = d; vfiles[i].len = len; return; }
  size_t l = strlen(name) + 1; char *n = (char *)__builtin_malloc(l); __builtin_memcpy(n, name, l); vfiles[nvf++] = {n, d, len};
}
const char *sx_vfs_find(const char *name, unsigned long *len) { for (int i = 0; i < nvf; i++) if (streq(vfiles[i].name, name)) { *len = vfiles[i].len; return vfiles[i].data; } return nullptr; }
int open(const char *name, int, ...) { if (vfs_failm[0]) { sx_errno = 5; return -1; } for (int i = 0; i < nvf; i++) if (streq(vfiles[i].name, name)) for (int k = 0; k < 8; k++) if (!vfds[k].file) { vfds[k] = {i + 1, 0, vfiles[i].len}; openFds++; return 3 + k; } sx_errno = 2; return -1; }
int open64(const char *name, int f, ...) { return open(name, f); }
int close(int fd) { if (fd < 3 || fd > 10 || !vfds[fd - 3].file) { sx_errno = 9; return -1; } vfds[fd - 3].file = 0; openFds--; return 0; }
int fstat(int fd, struct stat *st) noexcept { if (vfs_failm[1]) { sx_errno = 5; return -1; } if (fd < 3 || fd > 10 || !vfds[fd - 3].file) { sx_errno = 9; return -1; } __builtin_memset(st, 0, sizeof *st); st->st_size = (long)vfds[fd - 3].len; st->st_mode = 0100644; if (vfs_trunc) { vfds[fd - 3].len -= vfs_trunc; vfs_trunc = 0; } return 0; }
ssize_t read(int fd, void *buf, size_t n) { if (vfs_failm[2]) { sx_errno = 5; return -1; } if (fd < 3 || fd > 10 || !vfds[fd - 3].file) { sx_errno = 9; return -1; } VFd &v = vfds[fd - 3]; unsigned long left = v.len - v.pos; unsigned long k = n < left ? n : left; if (vfs_short && k > 1) k = sx_conc(sx_range("short-read", 1, k)); if (k) __builtin_memcpy(buf, vfiles[v.file - 1].data + v.pos, k); v.pos += k; return (ssize_t)k; }
}
// ---------------------------------------------------------------- C standard input and output
#include <cstdarg>
#include <cstdio>
#include <sys/mman.h>
namespace { struct SxFile { int kind; bool wr, eof, err; const char *d; unsigned long n, pos; std::string out, name; }; // kind: 1 standard output, 2 standard error, 3 standard input, 4 a file
SxFile sx_out{1, true, false, false, 0, 0, 0, {}, {}}, sx_err{2, true, false, false, 0, 0, 0, {}, {}}, sx_in{3, false, false, false, 0, 0, 0, {}, {}};
void fput(SxFile *f, const char *s, size_t n) { if (f->kind == 1) std::cout.rdbuf()->s_.append(s, n); else if (f->kind == 2) std::cerr.rdbuf()->s_.append(s, n); else f->out.append(s, n); }
int fnext(SxFile *f) { if (f->kind == 3) { int c = std::cin.rdbuf()->sbumpc(); f->eof |= c == -1; return c; } if (f->kind != 4 || f->wr) { f->err = true; return -1; } if (f->pos >= f->n) { f->eof = true; return -1; } return (unsigned char)f->d[f->pos++]; }
struct Put { char *b; size_t n, at; std::string *s; void c(char x) { if (s) s->push_back(x); else { if (at + 1 < n) b[at] = x; at++; } } };
int form(Put &o, const char *f, va_list ap) { size_t cnt = 0; auto put = [&](char c) { o.c(c); cnt++; };
  for (; *f; f++) { if (*f != '%') { put(*f); continue; } ++f; if (*f == '%') { put('%'); continue; }
    bool left = false, zero = false, plus = false, blank = false, alt = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') blank = true; else if (*f == '#') alt = true; else break; }
    long w = 0, pr = -1; if (*f == '*') { w = va_arg(ap, int); f++; if (w < 0) { left = true; w = -w; } } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0'); if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') pr = pr * 10 + (*f++ - '0'); }
    int lng = 0; for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng += 2; else if (*f == 'h') lng--; else break; }
    char t[80]; char *e = t + 80, *p = e; const char *s = 0; size_t n = 0, lead = 0;
    auto number = [&](unsigned long v, bool neg, unsigned base, bool up) { if (!(pr == 0 && !v)) do { unsigned d = (unsigned)(v % base); *--p = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; } while (v); while (e - p < pr && p > t + 4) *--p = '0'; if (pr < 0 && zero && !left) while ((long)(e - p) < w - (neg || plus || blank ? 1 : 0) && p > t + 4) *--p = '0'; if (alt && base == 16) { *--p = up ? 'X' : 'x'; *--p = '0'; } if (alt && base == 8) *--p = '0'; if (neg) *--p = '-'; else if (plus) *--p = '+'; else if (blank) *--p = ' '; s = p; n = (size_t)(e - p); };
    switch (*f) {
    case 'd': case 'i': { long v = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); if (lng == -1) v = (short)v; else if (lng == -2) v = (signed char)v; number(v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0, 10, false); break; }
    case 'u': case 'x': case 'X': case 'o': { unsigned long v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; else if (lng == -2) v = (unsigned char)v; plus = blank = false; number(v, false, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X'); break; }
    case 'c': t[0] = (char)va_arg(ap, int); s = t; n = 1; break;
    case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; n = 0; while ((pr < 0 || (long)n < pr) && s[n]) n++; break;
    case 'p': (void)va_arg(ap, void *); s = "0xptr"; n = 5; break;
    default: sx_fail("model: printf conversion"); return -1; }
    (void)lead; if (!left) for (size_t k = n; (long)k < w; k++) put(' '); for (size_t k = 0; k < n; k++) put(s[k]); if (left) for (size_t k = n; (long)k < w; k++) put(' '); }
  return (int)cnt; }
int fform(SxFile *f, const char *fm, va_list ap) { std::string s; Put o{0, 0, 0, &s}; int r = form(o, fm, ap); fput(f, s.data(), s.size()); return r; }
}
extern "C" {
#undef stdout
#undef stderr
#undef stdin
FILE *stdout = (FILE *)&sx_out, *stderr = (FILE *)&sx_err, *stdin = (FILE *)&sx_in;
int vsnprintf(char *b, size_t n, const char *f, va_list ap) noexcept { Put o{b, n, 0, 0}; int r = form(o, f, ap); if (n) b[o.at < n ? o.at : n - 1] = 0; return r; }
int vsprintf(char *b, const char *f, va_list ap) noexcept { return vsnprintf(b, ~0ul, f, ap); }
int snprintf(char *b, size_t n, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, ~0ul, f, ap); va_end(ap); return r; }
int vfprintf(FILE *o, const char *f, va_list ap) { return fform((SxFile *)o, f, ap); }
int sx_vprintf(const char *f, va_list ap) asm("vprintf"); int sx_vprintf(const char *f, va_list ap) { return fform(&sx_out, f, ap); }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = fform(&sx_out, f, ap); va_end(ap); return r; }
int fprintf(FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = fform((SxFile *)o, f, ap); va_end(ap); return r; }
int fputc(int c, FILE *o) { char x = (char)c; fput((SxFile *)o, &x, 1); return (unsigned char)x; } int putc(int c, FILE *o) { return fputc(c, o); } int sx_putchar(int c) asm("putchar"); int sx_putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *o) { fput((SxFile *)o, s, strlen(s)); return 1; } int puts(const char *s) { fputs(s, stdout); return fputc('\n', stdout) >= 0; } 
size_t fwrite(const void *p, size_t a, size_t b, FILE *o) { fput((SxFile *)o, (const char *)p, a * b); return b; }
void perror(const char *s) { if (s && *s) { fputs(s, stderr); fputs(": ", stderr); } fputs(strerror(sx_errno), stderr); fputc('\n', stderr); }
int fflush(FILE *) { return 0; } int setvbuf(FILE *, char *, int, size_t) noexcept { return 0; }
FILE *fopen(const char *name, const char *mode) { SxFile f{4, mode[0] != 'r', false, false, 0, 0, 0, {}, name}; if (mode[0] == 'r') { if (!(f.d = sx_vfs_find(name, &f.n))) { sx_errno = 2; return nullptr; } } else { if (!sx_vfs_open_ok(name)) { sx_errno = 2; return nullptr; } if (mode[0] == 'a') { unsigned long l; const char *d = sx_vfs_find(name, &l); if (d) f.out.assign(d, l); } } return (FILE *)new SxFile(f); }
int fclose(FILE *o) { auto *f = (SxFile *)o; if (f->kind != 4) return 0; if (f->wr) sx_vfs_put(f->name.c_str(), f->out.data(), f->out.size()); delete f; return 0; }
int fgetc(FILE *o) { return fnext((SxFile *)o); } int getc(FILE *o) { return fnext((SxFile *)o); } int sx_getchar() asm("getchar"); int sx_getchar() { return fnext(&sx_in); }
int ungetc(int c, FILE *o) { auto *f = (SxFile *)o; if (c < 0 || f->kind != 4 || !f->pos) return -1; f->pos--; f->eof = false; return c; }
size_t fread(void *p, size_t a, size_t b, FILE *o) { auto *f = (SxFile *)o; size_t k = 0; for (; k < a * b; k++) { int c = fnext(f); if (c < 0) break; ((char *)p)[k] = (char)c; } return a ? k / a : 0; }
char *fgets(char *b, int n, FILE *o) { int k = 0; while (k + 1 < n) { int c = fnext((SxFile *)o); if (c < 0) break; b[k++] = (char)c; if (c == '\n') break; } if (!k) return nullptr; b[k] = 0; return b; }
int feof(FILE *o) noexcept { return ((SxFile *)o)->eof; } int ferror(FILE *o) noexcept { return ((SxFile *)o)->err; } void clearerr(FILE *o) noexcept { ((SxFile *)o)->eof = ((SxFile *)o)->err = false; }
int fseek(FILE *o, long p, int w) { auto *f = (SxFile *)o; long b = w == 0 ? 0 : w == 1 ? (long)f->pos : (long)f->n; if (b + p < 0) return -1; f->pos = (unsigned long)(b + p); f->eof = false; return 0; }
long ftell(FILE *o) { auto *f = (SxFile *)o; return f->wr ? (long)f->out.size() : (long)f->pos; } void rewind(FILE *o) { fseek(o, 0, 0); }
// ---- other calls on file descriptors
long lseek(int fd, long p, int w) noexcept { if (fd < 3 || fd > 10 || !vfds[fd - 3].file) { sx_errno = 9; return -1; } VFd &v = vfds[fd - 3]; long b = w == 0 ? 0 : w == 1 ? (long)v.pos : (long)v.len; if (b + p < 0) { sx_errno = 22; return -1; } v.pos = (unsigned long)(b + p); return b + p; }
long lseek64(int fd, long p, int w) noexcept { return lseek(fd, p, w); }
int sx_fstat64(int fd, struct stat *st) asm("fstat64"); int sx_fstat64(int fd, struct stat *st) { return fstat(fd, st); }
int stat(const char *n, struct stat *st) noexcept { unsigned long l; if (!sx_vfs_find(n, &l)) { sx_errno = 2; return -1; } __builtin_memset(st, 0, sizeof *st); st->st_size = (long)l; st->st_mode = 0100644; return 0; }
int access(const char *n, int) noexcept { unsigned long l; if (!sx_vfs_find(n, &l)) { sx_errno = 2; return -1; } return 0; }
ssize_t pread(int fd, void *b, size_t n, long p) { if (fd < 3 || fd > 10 || !vfds[fd - 3].file) { sx_errno = 9; return -1; } unsigned long k = vfds[fd - 3].pos; if (p > (long)vfds[fd - 3].len) p = (long)vfds[fd - 3].len; vfds[fd - 3].pos = (unsigned long)p; ssize_t r = read(fd, b, n); vfds[fd - 3].pos = k; return r; }
void *mmap(void *, size_t n, int, int, int fd, long p) noexcept { if (fd < 3 || fd > 10 || !vfds[fd - 3].file || !n) { sx_errno = 22; return (void *)-1l; } char *d = (char *)__builtin_calloc(1, n); VFile &v = vfiles[vfds[fd - 3].file - 1]; for (size_t k = 0; k < n && (size_t)p + k < v.len; k++) d[k] = v.data[(size_t)p + k]; return d; }
int munmap(void *p, size_t) noexcept { __builtin_free(p); return 0; }
int unlink(const char *n) noexcept { for (int i = 0; i < nvf; i++) if (streq(vfiles[i].name, n)) { vfiles[i].name = ""; return 0; } sx_errno = 2; return -1; } int remove(const char *n) noexcept { return unlink(n); }
div_t div(int a, int b) noexcept { return {a / b, a % b}; } ldiv_t ldiv(long a, long b) noexcept { return {a / b, a % b}; }
char *getenv(const char *) noexcept { return nullptr; }
// ---- sorting and searching
void qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { char *p = (char *)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j && c(p + (j - 1) * w, p + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; } }
void *sx_bsearch(const void *k, const void *b, size_t n, size_t w, int (*c)(const void *, const void *)) asm("bsearch"); void *sx_bsearch(const void *k, const void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; int r = c(k, (const char *)b + m * w); if (!r) return (char *)b + m * w; if (r < 0) hi = m; else lo = m + 1; } return nullptr; }
// ---- more strings
size_t strnlen(const char *s, size_t n) noexcept { size_t k = 0; while (k < n && s[k]) k++; return k; }
size_t strspn(const char *s, const char *a) noexcept { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t strcspn(const char *s, const char *a) noexcept { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
const char *sx_strpbrk(const char *s, const char *a) asm("strpbrk"); const char *sx_strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? s : 0; }
char *strdup(const char *s) noexcept { size_t n = strlen(s) + 1; char *d = (char *)__builtin_malloc(n); __builtin_memcpy(d, s, n); return d; }
char *strncat(char *d, const char *s, size_t n) noexcept { char *r = d; while (*d) d++; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
int strcoll(const char *a, const char *b) noexcept { return strcmp(a, b); }
int sx_strcasecmp(const char *a, const char *b) asm("strcasecmp"); int sx_strcasecmp(const char *a, const char *b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) a++, b++; return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
void *sx_memrchr(const void *p, int c, size_t n) asm("memrchr"); void *sx_memrchr(const void *p, int c, size_t n) { for (const unsigned char *q = (const unsigned char *)p + n; n--;) if (*--q == (unsigned char)c) return (void *)q; return 0; }
double hypot(double a, double b) noexcept { return __builtin_elementwise_sqrt(a * a + b * b); }
}
