#include "common.hpp"
#include "ppocr/defined_loader.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
template <class R> static void bounded(double d) { sx_check((d >= 0.) & (d <= 1.), "similarity lies between zero and one"); }
template <class S> static void scalar() {
  using R = typename S::relationship_type; unsigned hi = R::count() - 1, a = (unsigned)sx_range("a", 0, hi), b = (unsigned)sx_range("b", 0, hi), c = (unsigned)sx_range("c", 0, hi), d = (unsigned)sx_range("d", 0, hi);
  unsigned ab = R::compute(a, b), ba = R::compute(b, a), ac = R::compute(a, c); double s = R::dist(a, b);
  sx_check(ab == ba, "scalar similarity is symmetric"); sx_check(R::compute(a, a) == 100, "identical scalars have similarity one"); sx_check(ab <= 100, "scalar similarity is a percentage"); bounded<R>(s); sx_check(R::dist(a, a) == 1., "identical scalars have distance measure one");
  unsigned dab = a < b ? b - a : a - b, dac = a < c ? c - a : a - c; sx_check((dab > dac) | (ab >= ac), "similarity never increases as values move apart");
  sx_check(R::in_dist(a, b, d) == (dab > d), "interval threshold holds exactly beyond the distance"); sx_observe(ab); sx_observe(R::in_dist(a, b, d));
}
template <class... S> static void each(mp_list<S...>) { unsigned k = P("feature", 0), i = 0; sx_check(k < sizeof...(S), "feature exists"); (..., (i++ == k ? scalar<S>() : (void)0)); }
HARNESS(h_scalar) { sx_merge(1); each(PpOcrSimpleDatas()); }
HARNESS(h_equal) { using R = strategies::hbar::relationship_type; unsigned a = (unsigned)sx_range("a", 0, ~0u), b = (unsigned)sx_range("b", 0, ~0u), d = (unsigned)sx_range("d", 0, 100);
  double s = R::dist(a, b); sx_check(s == (a == b ? 1. : 0.), "equality measure"); sx_check(R::compute(a, b) == (a == b), "equality value"); sx_check(R::in_dist(a, b, d) == (a == b), "equality threshold"); sx_check(R::dist(b, a) == s, "equality measure is symmetric"); sx_check(R::dist(a, a) == 1., "equality is reflexive"); sx_observe(a == b); }
template <class R, class F> static void table(F make) {
  typename R::value_type a, b; for (auto &x : a) make(x); for (auto &x : b) make(x); unsigned d = (unsigned)sx_range("d", 0, 100), n = 0; for (size_t i = 0; i < a.size(); i++) n += a[i] == b[i];
  unsigned v = R::compute(a, b); sx_observe(v); sx_check(v == n * 100 / (unsigned)a.size(), "table similarity is the floored percentage of equal cells"); sx_check(R::compute(b, a) == v, "table similarity is symmetric"); sx_check(R::compute(a, a) == 100, "identical tables have similarity one"); sx_check(R::dist(a, a) == 1., "identical tables have distance measure one"); bounded<R>(R::dist(a, b)); sx_check(R::in_dist(a, b, d) == (v >= d), "table threshold");
}
HARNESS(h_alt) { sx_merge(1); table<strategies::alternations::relationship_type>([](strategies::alternations::alternations_type &x) { x.start_contains_letter = (bool)sx_range("ink", 0, 1); x.count = (unsigned)sx_range("count", 0, ~0u); }); }
HARNESS(h_zone) { sx_merge(1); table<strategies::zone::relationship_type>([](unsigned &x) { x = (unsigned)sx_range("cell", 0, ~0u); }); }
HARNESS(h_shares) {
  sx_merge((int)P("merge", 0)); using R = strategies::proportionality_zone::relationship_type; unsigned n = P("n", 2), m = P("m", n); std::vector<unsigned> a(n), b(m); for (auto &x : a) x = (unsigned)sx_range("a", 0, P("hi", 100)); for (auto &x : b) x = (unsigned)sx_range("b", 0, P("hi", 100)); unsigned d = (unsigned)sx_range("d", 0, 100);
  unsigned v = R::compute(a, b), w = R::compute(b, a); sx_observe(v); sx_check((v <= 100) & (w <= 100), "share similarity is a percentage"); bounded<R>(R::dist(a, b)); if (P("sym", 1)) sx_check((v >= w ? v - w : w - v) <= 2, "share similarity is symmetric up to two rounding steps"); sx_check(R::compute(a, a) == 100, "identical shares have similarity one"); sx_check(R::dist(a, a) == 1., "identical shares have distance measure one");
  if (n != m) sx_check(v == 0, "different numbers of regions are not similar"); sx_check(R::in_dist(a, b, d) == (v >= d), "share threshold");
  if (n == 1 && m == 1) { unsigned c = (unsigned)sx_range("c", 0, 100); std::vector<unsigned> cc(1, c); unsigned far = R::compute(a, cc); sx_check(!(((a[0] <= b[0]) & (b[0] <= c)) | ((a[0] >= b[0]) & (b[0] >= c))) | (v >= far), "single share similarity never increases as values move apart"); }
}
