#include "common.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include <sstream>
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static std::string text(const char *n, unsigned lo, unsigned hi) { std::string s; unsigned l = (unsigned)sx_conc(sx_range("length", lo, hi)); for (unsigned i = 0; i < l; i++) s += (char)(unsigned char)sx_range(n, 33, P("letters", 255)); return s; }
HARNESS(h_index) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 2), lo = P("lo", 1), len = P("len", 2), k = P("views", 1); loader2::Glyphs g; for (unsigned i = 0; i < n; i++) { loader2::Glyph x; x.img = sym_image(1 + i % 2, 1, "px"); for (unsigned j = 0; j < k; j++) x.views.push_back({text("word", lo, len), j || P("fonts", 0) ? text("font", 1, 1) : std::string("f"), (unsigned)~0u}); g.push_back(std::move(x)); }
  std::ostringstream o; o << g; std::istringstream in(o.str()); ocr2::Glyphs r; in >> r; sx_check(r.size() == n, "the number of glyphs is kept"); if (r.size() != n) return;
  std::vector<std::pair<loader2::View const *, ocr2::View const *>> all;
  for (unsigned i = 0; i < n; i++) { sx_check(r[i].size() == k, "the number of views is kept"); if (r[i].size() != k) return; for (unsigned j = 0; j < k; j++) all.push_back({&g[i].views[j], &r[i][j]}); }
  for (auto &a : all) {
    auto &w = r.get_word(*a.second); sx_check(w.size() == a.first->word.size() && std::string(w.begin(), w.end()) == a.first->word, "a word identity resolves to its text"); sx_check(w.data()[w.size()] == 0, "a word text is terminated"); sx_check(r.word_index_of(a.first->word) == a.second->word, "looking a word up yields its identity"); sx_observe(a.second->word); sx_observe(a.second->font);
    for (auto &b : all) { sx_check((a.second->word == b.second->word) == (a.first->word == b.first->word), "identities agree exactly for equal words"); sx_check((a.second->font == b.second->font) == (a.first->font == b.first->font), "font identities agree exactly for equal fonts"); } }
  std::string q = text("asked", 0, P("ask", 2)); unsigned hit = r.word_index_of(q), want = ~0u; for (auto &a : all) if (a.first->word == q) want = a.second->word; sx_check(hit == want, "a text is found exactly when it is a word"); if (hit == ~0u) sx_reach("an unknown text");
}
