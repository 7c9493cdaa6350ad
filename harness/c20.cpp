#include "common.hpp"
#include "ppocr/ocr2/compute_image.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/strategies/relationship/interval.hpp"
#include "ppocr/strategies/relationship/array_compare.hpp"
using namespace ppocr; using namespace ppocr::ocr2;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
// features whose value for the queried image is an input: the real selection code over the real similarity measures
template <int K, class R> struct Feature { using relationship_type = R; using value_type = typename R::value_type; using ctx_type = no_context; static inline value_type queried{}; template <class C> static value_type load(Image const &, Image const &, C &) { return queried; } };
using Sim = strategies::interval_relationship<unsigned, 20>; using Cpx = strategies::interval_relationship<unsigned, 4>; using Exc = strategies::array_compare_relationship<unsigned, 2>;
using A = Feature<0, Sim>; using B = Feature<1, Sim>; using C = Feature<2, Cpx>; using D = Feature<3, Exc>;
using Store = loader2::Datas<A, B, C, D>;
static unsigned gap(unsigned a, unsigned b) { return a < b ? b - a : a - b; }
HARNESS(h_select) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 2), queries = P("queries", 1), maxviews = P("views", 1), words = P("words", 1), span = P("span", 4), cspan = P("cspan", 4), eb = P("eb", 1);
  Glyphs g; for (unsigned i = 0; i < n; i++) { Views v; unsigned k = maxviews > 1 ? (unsigned)sx_conc(sx_range("views", 1, maxviews)) : 1; for (unsigned j = 0; j < k; j++) v.push_back(View{(unsigned)sx_range("word", 0, words), i}); g.push_back(std::move(v)); }
  std::vector<unsigned> a(n), b(n), c(n); std::vector<std::array<unsigned, 2>> d(n); for (unsigned i = 0; i < n; i++) { a[i] = (unsigned)sx_choice("a", P("lo", 7), P("lo", 7) + span); b[i] = P("bfix", 0) ? 10 : (unsigned)sx_choice("b", P("lo", 7), P("lo", 7) + P("bspan", span)); c[i] = (unsigned)sx_choice("c", 0, cspan); d[i][0] = (unsigned)sx_range("d", 0, eb); d[i][1] = 3 + (unsigned)sx_range("e", 0, eb); }
  Store s; s.get<A>() = loader2::Data<A>(a); s.get<B>() = loader2::Data<B>(b); s.get<C>() = loader2::Data<C>(c); s.get<D>() = loader2::Data<D>(d);
  DataIndexesOrdered<A> ord(s); DataIndexesByWords peers(g); auto id = get_views_indexes_ordered(g); Probabilities p1(n), p2(n); unique_contexts_t<no_context> ctx;
  for (unsigned q = 0; q < queries; q++) {
    unsigned qa = A::queried = P("qa", 10), qb = B::queried = 10, qc = C::queried = P("qc", 0); D::queried = {0, 3}; if (q) { qa = A::queried = (unsigned)sx_choice("query a", 8, 12); }
    Image none; auto r = compute_image(mp_list<A, B>(), mp_list<C>(), mp_list<D>(), p1, p2, s, ord, peers, g, id, none, none, ctx, 0.5);
    // reference, in integers
    std::vector<unsigned> prob(n); bool exact = false; for (unsigned i = 0; i < n; i++) { bool in = (gap(a[i], qa) <= 2) & (gap(b[i], qb) <= 2); prob[i] = in ? (100 - 5 * gap(a[i], qa)) * (100 - 5 * gap(b[i], qb)) : 0; exact |= prob[i] == 10000; }
    if (exact) { sx_reach("an exact match"); for (auto &x : prob) x = x == 10000 ? x : 0; }
    else { std::vector<unsigned> cut(n); for (unsigned i = 0; i < n; i++) { unsigned sim = 100 - 25 * gap(c[i], qc); bool alone = true, near = false; for (unsigned j = 0; j < n; j++) if (j != i && g[j][0].word == g[i][0].word) { alone = false; near |= (d[j][0] == 0) | (d[j][1] == 3); } cut[i] = (sim >= 50) & (alone | near) ? prob[i] * sim : 0; } prob = cut; }
    unsigned best = 0; for (unsigned x : prob) best = x > best ? x : best;
    std::vector<unsigned> count(n); unsigned last = ~0u; size_t pos = 0;
    while (pos < r.size()) {
      View const &v = r[pos]; unsigned i = (unsigned)sx_conc(v.font); sx_check(i < n, "a candidate is a learned glyph"); if (i >= n) return; sx_observe(i);
      for (size_t k = 0; k < g[i].size(); k++, pos++) { sx_check(pos < r.size(), "a candidate brings all its readings"); if (pos >= r.size()) return; sx_check(&r[pos].get() == &g[i][k], "a candidate brings its own readings in order"); }
      count[i]++; sx_check(prob[i] > 0, "every candidate is within tolerance"); sx_check(prob[i] <= last, "candidates come best first"); last = prob[i]; sx_check(2 * prob[i] >= best, "no candidate is below half the best probability");
    }
    for (unsigned i = 0; i < n; i++) { unsigned in_class = 0, top = 0; bool listed_best = false; for (unsigned j = 0; j < n; j++) { bool same = g[i].size() == g[j].size(); for (size_t k = 0; same && k < g[i].size(); k++) same = g[i][k].word == g[j][k].word; if (same) { in_class += count[j]; top = prob[j] > top ? prob[j] : top; } } for (unsigned j = 0; j < n; j++) if (count[j]) { bool same = g[i].size() == g[j].size(); for (size_t k = 0; same && k < g[i].size(); k++) same = g[i][k].word == g[j][k].word; if (same) listed_best |= prob[j] == top; }
      sx_check(in_class <= 1, "at most one glyph per view class"); if (2 * top > best) sx_check((in_class == 1) & listed_best, "every class within tolerance is represented by its best glyph"); }
  }
}
// the registered features on real images: what was learned is recognised
HARNESS(h_learned) {
  sx_merge((int)P("merge", 0)); unsigned w = P("w", 2), h = P("h", 2); Image x = sym_image(w, h), y = P("fixed", 0) ? Image(Bounds(P("w2", w), P("h2", h)), [&] { std::unique_ptr<Pixel[]> p(new Pixel[P("w2", w) * P("h2", h)]); for (unsigned i = 0; i < P("w2", w) * P("h2", h); i++) p[i] = i % 3 == 1 ? '-' : 'x'; return p; }()) : sym_image(P("w2", w), P("h2", h), "other");
  PpOcrDatas s; s.load(x); s.load(y); Glyphs g; Views v0, v1; v0.push_back(View{0, 0}); v1.push_back(View{1, 1}); g.push_back(std::move(v0)); g.push_back(std::move(v1));
  using First = loader2::Strategy<strategies::dvgravity2, loader2::PolicyLoader::img90>; DataIndexesOrdered<First> ord(s); DataIndexesByWords peers(g); auto id = get_views_indexes_ordered(g); Probabilities p1(2), p2(2); PpOcrDataCtxs ctx; std::vector<unsigned> before = s.get<First>().data();
  for (unsigned turn = 0; turn < 2; turn++) { Image const &q = turn ? y : x; Image r90 = q.rotate90(); auto r = compute_image(PpOcrSimpleDatas(), PpOcrComplexDatas(), PpOcrExclusiveDatas(), p1, p2, s, ord, peers, g, id, q, r90, ctx, 0.5); bool found = false; for (View const &v : r) found |= v.word == turn; sx_check(found, "a learned image is recognised as what it was learned as"); sx_check(r.size() <= 2, "at most one candidate per class"); sx_observe(r.size()); if (x == y) sx_check(r.size() == 2, "two words learned from one image are both returned"); }
}
template <class S> static bool near_simple(PpOcrDatas const &s, unsigned i, Image const &q, Image const &r, PpOcrDataCtxs &ctx) { using R = typename S::relationship_type; unsigned v = S::load(q, r, ctx), w = s.get<S>()[i]; return gap(v, w) <= (R::count() - 1) / 10; }
template <class S> static bool near_complex(PpOcrDatas const &s, unsigned i, Image const &q, Image const &r, PpOcrDataCtxs &ctx) { return S::relationship_type::dist(S::load(q, r, ctx), s.get<S>()[i]) >= .5; }
template <class... S> static bool all_simple(mp_list<S...>, PpOcrDatas const &s, unsigned i, Image const &q, Image const &r, PpOcrDataCtxs &ctx) { return (true & ... & near_simple<S>(s, i, q, r, ctx)); }
template <class... S> static bool all_complex(mp_list<S...>, PpOcrDatas const &s, unsigned i, Image const &q, Image const &r, PpOcrDataCtxs &ctx) { return (true & ... & near_complex<S>(s, i, q, r, ctx)); }
HARNESS(h_tolerance) { // registered features: what is returned is within tolerance of the image, and nothing within tolerance makes the answer empty
  unsigned w = P("w", 3), h = P("h", 3), fixed = P("fixed", 0x1ff); Image q = sym_image(w, h); auto fix = [&](unsigned v) { std::unique_ptr<Pixel[]> p(new Pixel[w * h]); for (unsigned i = 0; i < w * h; i++) p[i] = v >> i & 1 ? 'x' : '-'; return Image(Bounds(w, h), std::move(p)); };
  PpOcrDatas s; s.load(fix(fixed)); s.load(fix(P("fixed2", 0xf7))); Glyphs g; for (unsigned i = 0; i < 2; i++) { Views v; v.push_back(View{i, i}); g.push_back(std::move(v)); }
  using First = loader2::Strategy<strategies::dvgravity2, loader2::PolicyLoader::img90>; DataIndexesOrdered<First> ord(s); DataIndexesByWords peers(g); auto id = get_views_indexes_ordered(g); Probabilities p1(2), p2(2); PpOcrDataCtxs ctx;
  Image r90 = q.rotate90(); auto r = compute_image(PpOcrSimpleDatas(), PpOcrComplexDatas(), PpOcrExclusiveDatas(), p1, p2, s, ord, peers, g, id, q, r90, ctx, 0.5); PpOcrDataCtxs fresh; fresh.reset(); sx_observe(r.size()); bool any = false;
  for (unsigned i = 0; i < 2; i++) { bool listed = false, in = all_simple(PpOcrSimpleDatas(), s, i, q, r90, fresh), cx = all_complex(PpOcrComplexDatas(), s, i, q, r90, fresh); for (View const &v : r) listed |= v.word == i; if (listed) { sx_check(in, "a returned glyph is within a tenth of every simple feature"); sx_reach("a candidate"); } any |= in & cx; }
  if (any) sx_check(!r.empty(), "a glyph within tolerance gives an answer"); else sx_reach("nothing within tolerance");
}
