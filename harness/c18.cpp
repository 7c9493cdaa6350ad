#include "common.hpp"
#include "ppocr/ocr2/data_indexes_by_words.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
using namespace ppocr::ocr2;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static Glyphs some(unsigned n, unsigned maxviews, unsigned words) { Glyphs g; for (unsigned i = 0; i < n; i++) { Views v; unsigned k = (unsigned)sx_conc(sx_range("views", 1, maxviews)); for (unsigned j = 0; j < k; j++) v.push_back(View{(unsigned)sx_range("word", 0, words), j}); g.push_back(std::move(v)); } return g; }
HARNESS(h_words) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 3); Glyphs g = some(n, P("views", 1), P("words", ~0u)); DataIndexesByWords d(g);
  for (unsigned i = 0; i < n; i++) { auto &l = d[i]; for (unsigned j = 0; j < n; j++) { unsigned c = 0; for (unsigned x : l) c += x == j; sx_check(c == (unsigned)(i != j && g[i][0].word == g[j][0].word), "the same-word list holds each other glyph of the word exactly once"); } for (unsigned x : l) sx_check(x < n, "the same-word list holds glyph numbers"); sx_observe(l.size()); }
}
HARNESS(h_classes) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 3); Glyphs g = some(n, P("views", 2), P("words", ~0u)); auto id = get_views_indexes_ordered(g); sx_check(id.size() == n, "one view class per glyph"); if (id.size() != n) return;
  for (unsigned i = 0; i < n; i++) { sx_observe(id[i]); for (unsigned j = 0; j < n; j++) { bool eq = g[i].size() == g[j].size(); for (size_t k = 0; eq && k < g[i].size(); k++) eq = g[i][k].word == g[j][k].word; sx_check((id[i] == id[j]) == eq, "two glyphs share a view class exactly when their words are identical"); } sx_check(id[i] < n, "a view class is a glyph number"); }
}
