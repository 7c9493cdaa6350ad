#include "common.hpp"
#include "ppocr/strategies/hdirection.hpp"
#include "ppocr/strategies/hdirection2.hpp"
#include "ppocr/strategies/hgravity.hpp"
#include "ppocr/strategies/hgravity2.hpp"
using namespace ppocr; using namespace ppocr::strategies;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
template <class A, class B> static void half(bool grav) {
  unsigned W = P("w", 3), H = P("h", 3); sx_merge((int)P("merge", 1)); Image img = sym_image(W, H), img90 = img.rotate90(), other = sym_image(P("w2", 2), P("h2", 2), "other");
  uint64_t top = 0, bot = 0, area = 0; unsigned half = H / 2;
  for (unsigned y = 0; y < half; y++) { unsigned wt = grav ? half - y : 1; area += (uint64_t)wt * W; for (unsigned x = 0; x < W; x++) { top += wt * (unsigned)(img.data()[y * W + x] == 'x'); bot += wt * (unsigned)(img.data()[(H - 1 - y) * W + x] == 'x'); } }
  typename A::ctx_type c1, c2; typename B::ctx_type d1;
  uint64_t a = A::load(img, img90, c1), b = B::load(img, img90, d1);
  sx_observe(a); sx_observe(b);
  // the quotients, stated without dividing: q = n / d  iff  q*d <= n < (q+1)*d
  uint64_t s = top + bot, n = 2 * top * 100;
  sx_check(s ? (a <= 200) & (a * s <= n) & (n < (a + 1) * s) : a == 100, "hundred-centred value is (2*top)*100/(top+bottom), 100 without ink");
  uint64_t n2 = (area + top - bot) * 100;
  sx_check(half ? (b <= 100) & (b * (2 * area) <= n2) & (n2 < (b + 1) * (2 * area)) : b == 50, "area-normalised value is (area+top-bottom)*100/(2*area), 50 for an empty half");
  if (half) sx_reach("both halves non-empty");
  // one shared context, either order, and reset between images
  unsigned b2 = B::load(img, img90, c2), a2 = A::load(img, img90, c2); sx_check((b2 == b) & (a2 == a), "value does not depend on which related feature came first");
  c2.reset(); unsigned o = A::load(other, other, c2); typename A::ctx_type c3; sx_check(o == A::load(other, other, c3), "a reset context describes the new image");
}
HARNESS(h_direction) { half<hdirection, hdirection2>(false); }
HARNESS(h_gravity) { half<hgravity, hgravity2>(true); }
