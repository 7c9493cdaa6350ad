#include "zoneref.hpp"
#include "ppocr/defined_loader.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
template <class S> static void one(Image const &img, Image const &img90) { typename S::ctx_type c; unsigned v = S::load(img, img90, c); sx_observe(v); sx_check(v + 1 <= S::relationship_type::count(), "scalar feature lies in the interval of its similarity measure"); }
template <class... S> static void each(mp_list<S...>, Image const &a, Image const &b) { (..., one<S>(a, b)); }
HARNESS(h_scalar) { sx_merge((int)P("merge", 1)); Image img = sym_image(P("w", 3), P("h", 3)), img90 = img.rotate90(); each(PpOcrSimpleDatas(), img, img90); }
// large images: whole halves inked or blank, a few free pixels
HARNESS(h_large) {
  sx_merge(1); unsigned W = P("w", 64), H = P("h", 64); unsigned t = (unsigned)sx_conc(sx_range("top", 0, 1)), b = (unsigned)sx_conc(sx_range("bottom", 0, 1)); std::unique_ptr<Pixel[]> p(new Pixel[W * H]);
  memset(p.get(), t ? 'x' : '-', W * (H / 2)); memset(p.get() + W * (H / 2), b ? 'x' : '-', W * (H - H / 2)); unsigned at[] = {0, W - 1, W * (H - 1), W * H - 1};
  for (unsigned k : at) p[k] = (Pixel)('-' + ('x' - '-') * sx_range("px", 0, 1));
  Image img(Bounds(W, H), std::move(p)), img90 = img.rotate90(); each(PpOcrSimpleDatas(), img, img90);
}
using Bar = loader2::Strategy<strategies::hbar, loader2::PolicyLoader::img>; using Bar90 = loader2::Strategy<strategies::hbar, loader2::PolicyLoader::img90>;
HARNESS(h_tables) {
  sx_merge((int)P("merge", 1)); unsigned W = P("w", 3), H = P("h", 3); Image img = sym_image(W, H), img90 = img.rotate90(); Bar::ctx_type c; Bar90::ctx_type c9; strategies::alternations::ctx_type ca;
  unsigned n = Bar::load(img, img90, c), m = Bar90::load(img, img90, c9); sx_observe(n); sx_observe(m); sx_check((n <= (H + 1) / 2) & (m <= (W + 1) / 2), "bar counts are at most one every other row");
  auto a = strategies::alternations::load(img, img90, ca); sx_check(a.size() == 7, "seven alternations"); for (int i = 0; i < 7; i++) { unsigned len = i < 4 ? W : H; sx_check(((a[i].count >= 1) | (i == 0 && H < 2)) & (a[i].count <= len), "run counts lie between one and the length of the cut"); sx_observe(a[i].count); }
}
HARNESS(h_zones) {
  unsigned W = P("w", 3), H = P("h", 3); Image img = masked_image(W, H, ~0ull, 0); strategies::zone::ctx_type c; auto z = strategies::zone::load(img, img, c); auto p = strategies::proportionality_zone::load(img, img, c);
  sx_check(z[0] <= 1 && z[1] <= 1, "corner features are booleans"); sx_check(z[2] <= (W + 1) / 2 && z[4] <= (W + 1) / 2 && z[3] <= (H + 1) / 2 && z[5] <= (H + 1) / 2 && z[6] <= (W * H + 1) / 2, "region counts are bounded by the sides"); 
  unsigned s = 0, last = 0; bool ok = p.size() <= 2 * (W + H); for (unsigned v : p) { ok = ok && v <= 100 && v >= last; last = v; s += v; sx_observe(v); } sx_check(ok && s <= 100, "shares are sorted percentages"); sx_check((s > 0) == !p.empty(), "shares exist exactly when a region touches the border");
}
