#include "common.hpp"
#include "ppocr/ocr2/filter_by_font.hpp"
using namespace ppocr::ocr2;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
HARNESS(h_font) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 3), fonts = P("fonts", 2), maxv = P("views", 2); std::vector<View> store; store.reserve(n * maxv + 1); std::vector<view_ref_list> lists(n);
  for (unsigned i = 0; i < n; i++) { unsigned k = (unsigned)sx_conc(sx_range("readings", 0, maxv)); for (unsigned j = 0; j < k; j++) { store.push_back(View{(unsigned)sx_range("word", 0, ~0u), (unsigned)sx_range("font", 0, fonts)}); lists[i].push_back(store.back()); } }
  unsigned same = P("same", 0); ambiguous_t amb; for (unsigned i = 0; i < n; i++) amb.push_back(lists[same && i == n - 1 ? 0 : i]); std::vector<view_ref_list> before = lists;
  unsigned r = filter_by_font(amb);
  // the font of the most single-reading positions, the smallest one on a tie
  unsigned best = ~0u, bestc = 0, distinct = 0; for (unsigned f = 0; f <= fonts; f++) { unsigned c = 0; for (unsigned i = 0; i < n; i++) { auto &l = before[same && i == n - 1 ? 0 : i]; if (l.size() == 1) c += l[0].get().font == f; } distinct += c != 0; if (c > bestc) { bestc = c; best = f; } }
  sx_observe(r); sx_check(r == best, "the reported font is the one of most single-reading positions"); bool act = distinct == 1 || (distinct > 1 && bestc >= n / 2);
  for (unsigned i = 0; i < n; i++) { if (same && i == n - 1) continue; auto &b = before[i], &a = lists[i];
    if (b.size() < 2 || !act) { sx_check(a.size() == b.size(), "other positions keep every reading"); for (size_t k = 0; k < b.size() && k < a.size(); k++) sx_check(&a[k].get() == &b[k].get(), "other positions keep their readings in order"); sx_observe(a.size()); }
    else { sx_check(a.size() == 1, "an ambiguous position keeps one reading"); if (a.size() != 1) continue; View const *w = &b[0].get(); bool hit = false; for (size_t k = b.size(); k-- > 0;) if (b[k].get().font == best) { w = &b[k].get(); hit = true; } sx_check(&a[0].get() == w, "the kept reading is the first one in the chosen font, or the first one"); sx_observe(hit); }
    sx_check(b.empty() == a.empty(), "no position with readings becomes empty"); }
}
