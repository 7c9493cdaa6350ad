#include "common.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
template <class R> static void look(R const &r, std::vector<bool> const &want, Pixel const *from) {
  unsigned n = (unsigned)want.size(), i = 0; bool any = false, all = true; sx_check(r.size() == n, "a row range knows its length");
  auto first = r.begin(), last = r.end(); for (auto it = r.begin(); it != last; ++it) { sx_check(i < n, "a row range ends"); if (i >= n) return; bool b = *it; sx_check(b == want[i], "a row range reports the ink of its columns in order"); sx_check(it.base() == from + i, "a cursor stands on its pixel"); sx_check(it - first == (ptrdiff_t)i && last - it == (ptrdiff_t)(n - i) && first - it == -(ptrdiff_t)i, "the distance of two cursors is the number of columns between them"); sx_check((first < it) == (i > 0) && it < last && !(it == last) && (it == first) == (i == 0), "cursors are ordered by column"); any |= want[i]; all &= want[i]; i++; } sx_check(i == n, "a row range visits every column");
  bool a = rng::any(r), e = rng::all(r), z = rng::none(r); sx_observe(a); sx_observe(e); sx_check(a == any, "any: some column has ink"); sx_check(e == all, "all: every column has ink"); sx_check(z == !any, "none: no column has ink");
  auto it = r.begin(); i = 0; while (i < n) { unsigned k = i; bool more; while (k < n && want[k] == want[i]) k++; more = rng::next_alternation(it, last); sx_check(more == (k < n), "a further run exists exactly when the range is not over"); sx_check(it - first == (ptrdiff_t)k, "the cursor moves to the next run"); i = k; if (!more) break; } sx_check(i == n || n == 0, "all runs are visited");
}
HARNESS(h_rows) {
  unsigned w = P("w", 3), h = P("h", 2); Image img = sym_image(w, h, "px", P("any", 1)); bool fixed = P("at", 0); unsigned x = fixed ? P("at", 0) : (unsigned)sx_conc(sx_range("x", 0, w - 1)), y = fixed ? h / 2 : (unsigned)sx_conc(sx_range("y", 0, h - 1)), len = fixed ? w - x : (unsigned)sx_conc(sx_range("columns", 1, w - x)), rows = fixed ? h - y : (unsigned)sx_conc(sx_range("rows", 0, h - y)); auto at = [&](unsigned i, unsigned j) { return img.data()[j * w + i] == 'x'; };
  std::vector<bool> one, strip; for (unsigned i = 0; i < len; i++) { bool s = false; for (unsigned j = 0; j < rows; j++) s |= at(x + i, y + j); one.push_back(at(x + i, y)); strip.push_back(s); }
  if (P("strip", 0)) look(hrange(img, Index(x, y), Bounds(len, rows)), strip, img.data() + y * w + x); else look(hrange(img, Index(x, y), len), one, img.data() + y * w + x);
}
