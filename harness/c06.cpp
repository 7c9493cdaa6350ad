#include "common.hpp"
#include "ppocr/box_char/make_box_character.hpp"
using namespace ppocr;
HARNESS(h_keep) {
  unsigned W = (unsigned)sx_param("w", 3), H = (unsigned)sx_param("h", 3); sx_merge((int)sx_param("merge", 0)); Image img = sym_image(W, H);
  auto ink = [&](unsigned x, unsigned y) { return img.data()[y * W + x] == 'x'; };
  auto touch = [&](unsigned c) { bool t = false; for (unsigned y = 0; y < H; y++) for (unsigned z = y ? y - 1 : 0; z <= y + 1 && z < H; z++) t |= ink(c, y) & ink(c + 1, z); return t; };
  std::vector<unsigned char> cov(W * H, 0); unsigned x = 0;
  for (unsigned n = 0; n <= W; n++) {
    Box b = make_box_character(img, Index(x, 0), img.bounds()); sx_observe(b.x()); sx_observe(b.y()); sx_observe(b.width()); sx_observe(b.height());
    if (!b) break;
    if (b.x() + b.width() > W || b.y() + b.height() > H) return;  // C05
    for (unsigned j = b.y(); j < b.y() + b.height(); j++) for (unsigned i = b.x(); i < b.x() + b.width(); i++) cov[j * W + i]++;
    bool first = false, top = false, bot = false;
    for (unsigned j = 0; j < H; j++) first |= ink(b.x(), j);
    for (unsigned i = b.x(); i < b.x() + b.width(); i++) { top |= ink(i, b.y()); bot |= ink(i, b.y() + b.height() - 1); }
    sx_check(first, "box starts on a column with ink"); sx_check(top && bot, "box is vertically tight");
    for (unsigned i = b.x(); i + 1 < b.x() + b.width(); i++) sx_check(touch(i), "a box never contains two disconnected neighbouring columns");
    if (b.x() + b.width() < W) sx_check(!touch(b.x() + b.width() - 1), "a cut is only made where the columns do not touch");
    if (b.x() + b.width() == W && b.width() > 1) sx_reach("glyph touching the right edge");
    if (b.width() > 1 && b.x() + b.width() < W) sx_reach("cut inside the image");
    x = b.x() + b.width();
  }
  bool ok = true, once = true; for (unsigned k = 0; k < W * H; k++) { ok &= (img.data()[k] != 'x') | (cov[k] >= 1); once &= cov[k] <= 1; }
  sx_check(ok, "every ink pixel is in a box"); sx_check(once, "no pixel is in two boxes");
}
