#include "common.hpp"
#include "ppocr/ocr2/image_context.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
HARNESS(h_context) {
  unsigned n = P("n", 3), W = P("w", 3), H = P("h", 2); bool turn = P("turn", 2) != 0; uint64_t live = sx_heap_live();
  { ocr2::ImageContext c; for (unsigned i = 0; i < n; i++) {
      unsigned w = (unsigned)sx_conc(sx_range("width", 1, W)), h = (unsigned)sx_conc(sx_range("height", 1, H)); std::vector<Pixel> px(w * h); for (auto &p : px) p = (Pixel)(unsigned char)sx_range("px", 0, 255);
      Image const &g = c.img(Bounds(w, h), [&](Pixel *d) { for (unsigned k = 0; k < w * h; k++) d[k] = px[k]; }); sx_check(g.width() == w && g.height() == h, "the presented image has the size asked for"); for (unsigned k = 0; k < w * h; k++) sx_check(g.data()[k] == px[k], "the presented image holds the pixels written");
      if (turn && (P("turn", 2) == 1 || sx_conc(sx_range("turned", 0, 1)))) { Image const &t = c.img90(); sx_check(t.width() == h && t.height() == w, "the quarter turn has the swapped size"); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) sx_check(t.data()[(w - 1 - x) * h + y] == px[y * w + x], "the quarter turn is exact"); for (unsigned k = 0; k < w * h; k++) sx_check(g.data()[k] == px[k], "turning keeps the image"); sx_observe(t.data()[0] == px[0]); }
      sx_observe(w * 10 + h); } }
  sx_check(sx_heap_live() == live || sx_is_native(), "the memory is released");
}
