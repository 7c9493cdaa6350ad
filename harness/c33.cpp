#include "common.hpp"
#include "ppocr/utils/reindex.hpp"
#include "ppocr/utils/integer_iterator.hpp"
#include "ppocr/utils/range_iterator.hpp"
#include "ppocr/utils/utf.hpp"
#include "ppocr/defined_loader.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
HARNESS(h_reindex) {
  unsigned n = P("n", 4); std::vector<unsigned> idx(n), v(n); std::vector<std::string> s(n); for (unsigned i = 0; i < n; i++) { idx[i] = (unsigned)sx_range("index", 0, n - 1); v[i] = (unsigned)sx_range("value", 0, ~0u); s[i] = std::string(1 + i * 9, (char)('a' + i)); for (unsigned j = 0; j < i; j++) sx_assume(idx[i] != idx[j]); } auto o = v; utils::reindex(idx, v); sx_check(v.size() == n, "the length is kept"); for (unsigned i = 0; i < n; i++) { unsigned w = 0; for (unsigned j = 0; j < n; j++) w = idx[i] == j ? o[j] : w; sx_check(v[i] == w, "each element moves to its place"); }
  if (P("strings", 0)) { auto t = s; utils::reindex(idx, s); for (unsigned i = 0; i < n; i++) { sx_check(s[i] == t[idx[i]], "texts move to their place"); sx_observe(s[i].size()); } }
}
HARNESS(h_permute) { // long sequences, every rotation of several shuffles
  unsigned n = P("n", 40), a = P("mul", 7), b = (unsigned)sx_conc((sx_range)("rotation", 0, n - 1)); std::vector<unsigned> idx(n), v(n); std::vector<std::string> s(n); for (unsigned i = 0; i < n; i++) { idx[i] = (i * a + b) % n; v[i] = (unsigned)sx_range("value", 0, ~0u); s[i] = std::string(1 + i % 37, (char)('a' + i % 26)); } if (P("swap", 0)) { unsigned x = (unsigned)sx_conc((sx_range)("swapped", 1, n - 1)); unsigned t = idx[0]; idx[0] = idx[x]; idx[x] = t; } auto o = v; auto t = s; utils::reindex(idx, v); utils::reindex(idx, s); sx_check(v.size() == n && s.size() == n, "the length is kept"); for (unsigned i = 0; i < n; i++) { sx_check(v[i] == o[idx[i]], "each element moves to its place"); sx_check(s[i] == t[idx[i]], "texts move to their place"); } sx_observe(v[0]);
}
HARNESS(h_cursor) {
  using It = integer_iterator<unsigned>; unsigned a = (unsigned)sx_range("a", 0, 0x7fffffff), b = (unsigned)sx_range("b", 0, 0x7fffffff), d = (unsigned)sx_range("d", 0, 0x3fffffff); It x{a}, y{b};
  sx_check(*x == a, "a cursor holds its integer"); sx_check(((x == y) == (a == b)) & ((x != y) == (a != b)) & ((x < y) == (a < b)) & ((x <= y) == (a <= b)), "cursors compare like integers"); sx_check(*(x + (ptrdiff_t)d) == a + d, "advancing adds"); It z = x; z += (ptrdiff_t)d; sx_check(*z == a + d, "advancing in place adds"); z -= (ptrdiff_t)d; sx_check(*z == a, "stepping back in place subtracts"); sx_check(*((x + (ptrdiff_t)d) - (ptrdiff_t)d) == a, "stepping back undoes advancing"); ++z; sx_check(*z == a + 1, "increment steps by one"); if (a >= b) sx_check(x - y == (ptrdiff_t)(a - b), "the distance is the difference"); sx_observe(*z);
  integer_iterator<long> p{(long)sx_range("p", 0, 1000) - 500}, q{(long)sx_range("q", 0, 1000) - 500}; sx_check(p - q == p.n - q.n, "signed distance is the difference"); sx_check((p <= q) == (p.n <= q.n) && (p < q) == (p.n < q.n), "signed cursors compare like integers");
}
HARNESS(h_range) { // a range maps its proxy over the elements in order
  unsigned n = P("n", 4); std::vector<unsigned> v(n), t(5); for (auto &x : v) x = (unsigned)sx_range("v", 0, 4); for (auto &x : t) x = (unsigned)sx_range("t", 0, ~0u); struct Pick { unsigned const *t; unsigned const &operator()(unsigned const &x) const { return t[x]; } }; range_iterator<std::vector<unsigned>::const_iterator, Pick> r(v.begin(), v.end(), Pick{t.data()}); sx_check((size_t)r.size() == n && r.empty() == (n == 0), "a range knows its length"); unsigned i = 0; for (unsigned const &x : r) { sx_check(i < n && x == t[v[i]], "a range visits its elements in order"); sx_check(r[i] == x, "indexing agrees with visiting"); i++; } sx_check(i == n, "a range visits every element"); if (n) sx_check(r.front() == t[v[0]] && r.back() == t[v[n - 1]] && *r.begin().operator->() == t[v[0]] && r.begin()[n - 1] == t[v[n - 1]], "front and back are the ends"); sx_observe(i);
}
template <class... S> static bool reflt(PpOcrDatas const &d, details_::DefaultDatas<S...> const *, size_t i, size_t j, bool eq) {
  bool lt = false, same = true; (..., [&] { auto const &x = d.get<S>()[i], &y = d.get<S>()[j]; bool e = x == y, l = x < y; lt |= same & l; same &= e; }()); return eq ? same : lt;
}
static unsigned which, which2, counter;
static void fill(unsigned &x, bool sym) { x = sym ? (unsigned)sx_range("value", 0, ~0u) : 7; }
static void fill(strategies::alternations::alternations_type &a, bool sym) { a.start_contains_letter = sym ? (bool)sx_range("ink", 0, 1) : false; a.count = sym ? (unsigned)sx_range("runs", 0, 1000) : 3; }
template <class T, size_t N> static void fill(std::array<T, N> &a, bool sym) { for (size_t i = 0; i < N; i++) fill(a[i], sym && (i == 0 || i == N - 1)); }
static void fill(std::vector<unsigned> &v, bool sym) { v.resize(sym ? (size_t)sx_conc(sx_range("shares", 0, 2)) : 1); for (auto &x : v) fill(x, sym); }
template <class S> static loader2::Data<S> column(unsigned k) { typename loader2::Data<S>::container_type c(2); for (auto &x : c) fill(x, k == which || k == which2); return loader2::Data<S>(std::move(c)); }
template <class... S> static PpOcrDatas build(details_::DefaultDatas<S...> *) { unsigned k = 0; return PpOcrDatas{column<S>(k++)...}; }
HARNESS(h_order) { // two entries differing in at most two columns
  which = P("a", 0); which2 = P("b", 1); PpOcrDatas d = build((PpOcrDatas *)nullptr); bool l = d.lt(0, 1), g = d.lt(1, 0), e = d.eq(0, 1); PpOcrDatas const *t = nullptr; sx_observe(l); sx_observe(e); sx_check(l == reflt(d, t, 0, 1, false), "less is the lexicographic order of the features"); sx_check(g == reflt(d, t, 1, 0, false), "greater is the lexicographic order of the features"); sx_check(e == reflt(d, t, 0, 1, true), "equal means every feature is equal"); sx_check(l + g + e == 1, "exactly one of less, greater and equal holds");
}
// decoding valid UTF-8
HARNESS(h_utf8) {
  unsigned n = P("n", 2); std::vector<uint32_t> cp, packed; std::string s; std::vector<size_t> at; for (unsigned i = 0; i < n; i++) { unsigned b = (unsigned)sx_conc(sx_range("bytes", 1, 4)); uint32_t c = 0, p;
    if (b == 1) { c = (uint32_t)sx_range("cp1", 1, 0x7f); s += (char)c; p = c; }
    else if (b == 2) { c = (uint32_t)sx_range("cp2", 0x80, 0x7ff); uint32_t x = 0xC0 | c >> 6, y = 0x80 | (c & 63); s += (char)x; s += (char)y; p = x << 8 | y; }
    else if (b == 3) { c = (uint32_t)sx_range("cp3", 0x800, 0xffff); sx_assume(!(c >= 0xd800 && c <= 0xdfff)); uint32_t x = 0xE0 | c >> 12, y = 0x80 | (c >> 6 & 63), z = 0x80 | (c & 63); s += (char)x; s += (char)y; s += (char)z; p = x << 16 | y << 8 | z; }
    else { c = (uint32_t)sx_range("cp4", 0x10000, 0x10ffff); uint32_t x = 0xF0 | c >> 18, y = 0x80 | (c >> 12 & 63), z = 0x80 | (c >> 6 & 63), t = 0x80 | (c & 63); s += (char)x; s += (char)y; s += (char)z; s += (char)t; p = x << 24 | y << 16 | z << 8 | t; }
    cp.push_back(c); packed.push_back(p); at.push_back(s.size()); }
  utf::UTF8toUnicodeIterator u(s.c_str()); utf::UTF8Iterator k(s.c_str()); for (unsigned i = 0; i < n; i++) { sx_check(*u == cp[i] && u.code() == cp[i], "decoding yields the code points in order"); sx_check(*k == packed[i] && k.code() == packed[i], "the packed iterator yields the bytes of each character"); sx_check((const char *)u.pos() == s.c_str() + at[i] && (const char *)k.pos() == s.c_str() + at[i], "the position is after the character read"); sx_observe(*u); ++u; ++k; } sx_check(*u == 0 && *k == 0, "decoding ends at the terminator"); sx_check((const char *)u.pos() == s.c_str() + s.size() + 1, "the terminator is not passed");
}
