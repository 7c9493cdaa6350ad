#include "common.hpp"
#include "ppocr/strategies/alternations.hpp"
using namespace ppocr; using namespace ppocr::strategies;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
HARNESS(h_alt) {
  unsigned W = P("w", 3), H = P("h", 3); sx_merge((int)P("merge", 1)); Image img = sym_image(W, H); auto ink = [&](unsigned x, unsigned y) { return (unsigned)(img.data()[y * W + x] == 'x'); };
  Image img90 = img.rotate90(); alternations::ctx_type c; auto v = alternations::load(img, img90, c);
  std::vector<unsigned> cut[7];
  auto colany = [&](unsigned x, unsigned y0, unsigned n) { unsigned r = 0; for (unsigned k = 0; k < n; k++) r |= ink(x, y0 + k); return r; };
  auto rowany = [&](unsigned y, unsigned x0, unsigned n) { unsigned r = 0; for (unsigned k = 0; k < n; k++) r |= ink(x0 + k, y); return r; };
  for (unsigned x = 0; x < W; x++) { if (H >= 2) cut[0].push_back(ink(x, (H - 2) / 3)); cut[1].push_back(ink(x, (2 * H - 1) / 3)); cut[2].push_back(colany(x, 0, H / 3)); cut[3].push_back(colany(x, H - H / 3, H / 3)); }
  for (unsigned y = 0; y < H; y++) { cut[4].push_back(ink(W - 1 - (W - 1) / 2, y)); cut[5].push_back(rowany(y, 0, W / 3)); cut[6].push_back(rowany(y, W - W / 3, W / 3)); }
  static const char *label[] = {"upper line", "lower line", "top third", "bottom third", "middle column", "left third", "right third"};
  for (int i = 0; i < 7; i++) { unsigned runs = cut[i].empty() ? 0 : 1, first = cut[i].empty() ? 0 : cut[i][0]; for (size_t k = 1; k < cut[i].size(); k++) runs += cut[i][k] ^ cut[i][k - 1];
    sx_observe(v[i].start_contains_letter); sx_observe(v[i].count);
    (void)label; sx_check(((unsigned)v[i].start_contains_letter == first) & (v[i].count == runs), "cut starts with the right colour and has the right number of runs"); }
}
