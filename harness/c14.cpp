#include "zoneref.hpp"
#include "ppocr/defined_loader.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
// the value a feature has for an image alone, in its declared orientation
template <class T> struct Alone;
template <class T, loader2::PolicyLoader Pol> struct Alone<loader2::Strategy<T, Pol>> {
  static auto value(Image const &img) { Image r = img.rotate90(); typename T::ctx_type c{}; if (Pol == loader2::PolicyLoader::img) return T::load(img, r, c); return T::load(r, img, c); }
};
static void obs(unsigned v) { sx_observe(v); }
template <class C> static void obs(C const &) {}
template <class S> static void entry(PpOcrDatas const &d, size_t i, Image const &img) { auto v = Alone<S>::value(img); obs(v); sx_check(d.get<S>().size() == d.size(), "every feature has one value per entry"); sx_check(d.get<S>()[i] == v, "a stored feature is the feature of its image alone"); }
template <class... S> static void entries(mp_list<S...>, PpOcrDatas const &d, size_t i, Image const &img) { (..., entry<S>(d, i, img)); }
template <class S, class C> static void recog(C &ctx, Image const &img, Image const &r) { auto v = S::load(img, r, ctx); sx_check(v == Alone<S>::value(img), "recognition computes the same value as learning"); }
template <class... S, class C> static void recogs(mp_list<S...>, C &ctx, Image const &img, Image const &r) { (..., recog<S>(ctx, img, r)); }
static void all(PpOcrDatas const &d, size_t i, Image const &img) { entries(PpOcrSimpleDatas(), d, i, img); entries(PpOcrComplexDatas(), d, i, img); entries(PpOcrExclusiveDatas(), d, i, img); }
static Image pic(const char *n, unsigned w, unsigned h, unsigned sym) { if (sym) return sym_image(w, h, n); std::unique_ptr<Pixel[]> p(new Pixel[w * h]); for (unsigned i = 0; i < w * h; i++) p[i] = i % 3 ? 'x' : '-'; return Image(Bounds(w, h), std::move(p)); }
HARNESS(h_learn) {
  sx_merge((int)P("merge", 0)); unsigned s = P("sym", 2); Image a = pic("first", P("w", 2), P("h", 2), s & 1), b = pic("second", P("w2", 2), P("h2", 2), s & 2); PpOcrDatas d; if (P("twice", 0)) { d.load(b); d.load(a); d.load(b); all(d, 0, b); all(d, 2, b); } else { d.load(a); d.load(b); all(d, 0, a); all(d, 1, b); } sx_check(d.size() == 2 + P("twice", 0), "one entry per loaded image");
}
HARNESS(h_recognise) {
  sx_merge((int)P("merge", 0)); unsigned s = P("sym", 2); Image a = pic("first", P("w", 2), P("h", 2), s & 1), b = pic("second", P("w2", 2), P("h2", 2), s & 2); PpOcrDataCtxs ctx;
  for (Image const *i : {&a, &b}) { ctx.reset(); Image r = i->rotate90(); recogs(PpOcrSimpleDatas(), ctx, *i, r); recogs(PpOcrComplexDatas(), ctx, *i, r); recogs(PpOcrExclusiveDatas(), ctx, *i, r); }
}
