#include "common.hpp"
#include "ppocr/defined_loader.hpp"
#include <sstream>
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static unsigned which, top, counter;
static void fill(unsigned &x, bool sym) { x = sym ? (unsigned)sx_range("value", 0, top) : (counter = (counter * 7 + 3) % 101); }
static void fill(strategies::alternations::alternations_type &a, bool sym) { a.start_contains_letter = sym ? (bool)sx_range("ink", 0, 1) : (++counter & 1); unsigned c; fill(c, sym); a.count = c; }
template <class T, size_t N> static void fill(std::array<T, N> &a, bool sym) { size_t k = sym ? sx_param("cell", 0) : N; for (size_t i = 0; i < N; i++) fill(a[i], i == k || (sym && sx_param("allcells", 0))); }
static void fill(std::vector<unsigned> &v, bool sym) { v.resize(sym ? (size_t)sx_conc(sx_range("shares", 0, P("shares", 2))) : counter % 3); for (auto &x : v) fill(x, sym); }
template <class S> static loader2::Data<S> column(unsigned k, unsigned n) { typename loader2::Data<S>::container_type c(n); for (auto &x : c) fill(x, k == which); return loader2::Data<S>(std::move(c)); }
template <class... S> static PpOcrDatas build(details_::DefaultDatas<S...> *, unsigned n) { unsigned k = 0; return PpOcrDatas{column<S>(k++, n)...}; }
static void obs(unsigned v) { sx_observe(v); }
template <class C> static void obs(C const &) {}
template <class S> static void same(PpOcrDatas const &a, PpOcrDatas const &b) {
  auto &x = a.get<S>(), &y = b.get<S>(); sx_check(x.size() == y.size(), "every feature column keeps its length"); if (x.size() == y.size()) for (size_t i = 0; i < x.size(); i++) { obs(y[i]); sx_check(x[i] == y[i], "every feature value survives"); }
}
template <class... S> static void sames(details_::DefaultDatas<S...> const *, PpOcrDatas const &a, PpOcrDatas const &b) { (..., same<S>(a, b)); }
HARNESS(h_roundtrip) {
  which = P("feature", 0); top = P("top", 255); counter = 1; unsigned n = P("n", 2); PpOcrDatas d = build((PpOcrDatas *)nullptr, n); std::ostringstream o; o << d; sx_check(!o.fail(), "writing succeeds");
  std::istringstream i(o.str()); PpOcrDatas e; if (P("dirty", 0)) { counter = 5; unsigned w = which; which = ~0u; e = build((PpOcrDatas *)nullptr, 3); which = w; } i >> e; sx_check(e.size() == n, "the number of entries survives"); sames(&d, d, e); sx_check(i.eof(), "reading consumes the whole text");
}
// two stores one after the other in the same stream
HARNESS(h_two) {
  which = P("feature", 0); top = P("top", 9); counter = 1; PpOcrDatas d = build((PpOcrDatas *)nullptr, 1), d2 = build((PpOcrDatas *)nullptr, 2); std::ostringstream o; o << d << d2; std::istringstream i(o.str()); PpOcrDatas e, e2; i >> e >> e2; sames(&d, d, e); sames(&d2, d2, e2);
}
// a text cut before its last value leaves the reader failed
HARNESS(h_cut) {
  which = P("feature", 0); top = P("top", 9); counter = 1; PpOcrDatas d = build((PpOcrDatas *)nullptr, P("n", 1)); std::ostringstream o; o << d; std::string s = o.str(); size_t end = s.size(); while (end && (s[end - 1] == ' ' || s[end - 1] == '\n')) end--; while (end && s[end - 1] != ' ' && s[end - 1] != '\n') end--; size_t k = (size_t)sx_conc((sx_range)("keep", 0, end)); std::istringstream i(s.substr(0, k)); PpOcrDatas e; i >> e; sx_check(i.fail(), "a truncated store is a failed read"); sx_observe(k);
}
