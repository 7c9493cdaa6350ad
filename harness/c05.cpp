#include "common.hpp"
#include "ppocr/box_char/make_box_character.hpp"
using namespace ppocr;
static bool ink(Image const &i, unsigned x, unsigned y) { return i.data()[y * i.width() + x] == 'x'; }
// full scan, as the programs do it
HARNESS(h_scan) {
  unsigned W = (unsigned)sx_param("w", 3), H = (unsigned)sx_param("h", 3); sx_merge((int)sx_param("merge", 0)); Image img = sym_image(W, H);
  bool any0 = false; for (unsigned k = 0; k < W * H; k++) any0 |= img.data()[k] == 'x';
  unsigned x = 0, n = 0, prev = 0;
  for (;; n++) {
    sx_check(n <= W, "scan takes at most one step per column"); if (n > W) return;
    Box b = make_box_character(img, Index(x, 0), img.bounds());
    sx_observe(b.x()); sx_observe(b.y()); sx_observe(b.width()); sx_observe(b.height());
    bool any = false; for (unsigned i = 0; i < W; i++) for (unsigned j = 0; j < H; j++) any |= (i >= x) & ink(img, i, j);
    if (!b) {
      sx_check(!any, "an empty box is only reported when no ink remains"); sx_check(b.x() == W && b.width() == 0, "the empty box is at the right edge"); break; }
    sx_check(any, "a box is only reported while ink remains");
    sx_check(b.width() > 0 && b.height() > 0, "box is not empty"); sx_check(b.x() >= x && b.x() >= prev, "box starts at or after the scan position");
    sx_check(b.x() + b.width() <= W && b.y() + b.height() <= H && b.x() + b.width() > b.x() && b.y() + b.height() > b.y(), "box lies inside the image");
    prev = b.x() + b.width(); x = prev; if (n == 1) sx_reach("two boxes");
  }
  sx_check(any0 == (n > 0), "boxes are found exactly when there is ink");
}
// one step from every start column
HARNESS(h_start) {
  unsigned W = (unsigned)sx_param("w", 3), H = (unsigned)sx_param("h", 3); sx_merge((int)sx_param("merge", 0)); Image img = sym_image(W, H);
  unsigned x = (unsigned)sx_conc(sx_range("x", 0, W));
  Box b = make_box_character(img, Index(x, 0), img.bounds()); sx_observe(b.x()); sx_observe(b.width()); sx_observe(b.y()); sx_observe(b.height());
  bool any = false; for (unsigned i = x; i < W; i++) for (unsigned j = 0; j < H; j++) any |= ink(img, i, j);
  sx_check(any == bool(b), "a box exactly when ink remains right of the start");
  if (b) { sx_check(b.x() >= x && b.x() + b.width() <= W && b.y() + b.height() <= H && b.width() > 0 && b.height() > 0, "box from any start column is inside the image"); 
    Image s = img.section(b.index(), b.bounds()); bool has = false; for (unsigned k = 0; k < s.area(); k++) has |= s.data()[k] == 'x'; sx_check(has, "the cut-out contains ink"); }
  else sx_check(b.x() == W && b.width() == 0, "no ink from a start column gives the empty box at the right edge");
}
