#include "common.hpp"
#include "ppocr/strategies/density.hpp"
#include "ppocr/strategies/dzdensity.hpp"
#include "ppocr/strategies/proportionality.hpp"
#include "ppocr/strategies/hbar.hpp"
using namespace ppocr; using namespace ppocr::strategies;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
#define SETUP unsigned W = P("w", 3), H = P("h", 3); sx_merge((int)P("merge", 1)); Image img = sym_image(W, H); auto ink = [&](unsigned x, unsigned y) { return (unsigned)(img.data()[y * W + x] == 'x'); };
HARNESS(h_density) { SETUP density::ctx_type c; uint64_t v = density::load(img, img, c); sx_observe(v); uint64_t n = 0; for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) n += ink(x, y);
  sx_check((v <= 100) & (v * W * H <= n * 100) & (n * 100 < (v + 1) * W * H), "density is the floored percentage of ink"); }
HARNESS(h_band) { SETUP dzdensity::ctx_type c; uint64_t v = dzdensity::load(img, img, c); sx_observe(v);
  if (W < 3 || H < 3) { sx_check(v == 0, "small images have no band"); return; }
  uint64_t n = 0, area = 0;
  // column x of row y is inside when its whole width lies within a third of the width of the diagonal x = y*W/H (upper edge y, lower edge y+1)
  for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) { int64_t w = W, h = H, xs3h = 3 * w * (y + 1) - w * h, xe3h = 3 * w * y + w * h; bool in = 3 * h * x >= xs3h && 3 * h * (x + 1) <= xe3h; if (in) { area++; n += ink(x, y); } }
  sx_check(area > 0, "the band is not empty"); sx_check((v <= 100) & (v * area <= n * 100) & (n * 100 < (v + 1) * area), "band density is the floored percentage of ink in the band"); }
HARNESS(h_prop) { unsigned W = P("w", 3), H = P("h", 3); Image img = sym_image(W, H); proportionality::ctx_type c; unsigned v = proportionality::load(img, img, c); sx_observe(v); sx_check(v == W * 100 / (W + H), "proportionality is width*100/(width+height)"); }
HARNESS(h_bar) { SETUP hbar::ctx_type c; unsigned v = hbar::load(img, img, c); sx_observe(v); unsigned n = 0, prev = 0; for (unsigned y = 0; y < H; y++) { unsigned full = 1; for (unsigned x = 0; x < W; x++) full &= ink(x, y); n += full & (prev ^ 1u); prev = full; }
  sx_check(v == n, "bar count is the number of maximal runs of full rows"); }
