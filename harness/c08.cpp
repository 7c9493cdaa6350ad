#include "common.hpp"
#include "ppocr/strategies/dvdirection.hpp"
#include "ppocr/strategies/dvdirection2.hpp"
#include "ppocr/strategies/dvgravity.hpp"
#include "ppocr/strategies/dvgravity2.hpp"
using namespace ppocr; using namespace ppocr::strategies;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
template <class A, class B> static void tri(bool grav) {
  unsigned W = P("w", 3), H = P("h", 3); sx_merge((int)P("merge", 1)); Image img = sym_image(W, H), img90 = img.rotate90(), alt = sym_image(W, H, "outside");
  uint64_t top = 0, bot = 0, area = 0; unsigned half = H / 2; std::unique_ptr<Pixel[]> mix(new Pixel[W * H]); for (unsigned k = 0; k < W * H; k++) mix[k] = alt.data()[k];
  for (unsigned y = 0; y < half; y++) { unsigned wt = grav ? half - y : 1, x0 = W / 2 - W / (y + 1) / 2; for (unsigned x = x0; x < W - x0; x++) { area += 2 * wt; unsigned t = y * W + x, b = (H - 1 - y) * W + x; mix[t] = img.data()[t]; mix[b] = img.data()[b]; top += wt * (unsigned)(img.data()[t] == 'x'); bot += wt * (unsigned)(img.data()[b] == 'x'); } }
  typename A::ctx_type c1, c2; typename B::ctx_type d1; uint64_t a = A::load(img, img90, c1), b = B::load(img, img90, d1); sx_observe(a); sx_observe(b);
  uint64_t s = top + bot, n = 2 * top * 100;
  sx_check(s ? (a <= 200) & (a * s <= n) & (n < (a + 1) * s) : a == 100, "hundred-centred value counts exactly the two triangular regions");
  sx_check(area ? (b <= 100) & (b * area <= n) & (n < (b + 1) * area) : b == 50, "area-normalised value is twice the upper share of the region size");
  unsigned b2 = B::load(img, img90, c2), a2 = A::load(img, img90, c2); sx_check((b2 == b) & (a2 == a), "value does not depend on which related feature came first");
  Image m(Bounds(W, H), std::move(mix)); typename A::ctx_type c3; sx_check((A::load(m, m, c3) == a) & (B::load(m, m, c3) == b), "pixels outside the regions have no influence");
  if (half > 1) sx_reach("narrowing rows");
}
HARNESS(h_direction) { tri<dvdirection, dvdirection2>(false); }
HARNESS(h_gravity) { tri<dvgravity, dvgravity2>(true); }
