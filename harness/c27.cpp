#include "common.hpp"
#include "ppocr/ocr2/words_infos.hpp"
#include <sstream>
using namespace ppocr::ocr2;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static std::string text(const char *n, unsigned lo, unsigned hi) { std::string s; unsigned l = (unsigned)sx_conc(sx_range("length", lo, hi)); for (unsigned i = 0; i < l; i++) s += (char)sx_range(n, 33, 255); return s; }
struct Entry { std::string w; unsigned a, c, m, b; };
static bool is(WordLines const &l, Entry const &e) { return (l.ascentline == e.a) & (l.capline == e.c) & (l.meanline == e.m) & (l.baseline == e.b); }
static std::vector<Entry> entries(unsigned n, std::string &t) {
  std::vector<Entry> v; for (unsigned i = 0; i < n; i++) { Entry e{text("word", P("lo", 1), P("len", 1)), (unsigned)sx_range("ascent", 0, 7), (unsigned)sx_range("cap", 0, 7), (unsigned)sx_range("mean", 0, 7), (unsigned)sx_range("base", 0, 7)}; t += e.w; for (unsigned x : {e.a, e.c, e.m, e.b}) { t += ' '; t += (char)('0' + x); } if (i + 1 < n || !P("nonl", 0)) t += '\n'; v.push_back(e); } return v;
}
HARNESS(h_table) {
  std::string t; auto v = entries(P("n", 2), t); std::istringstream i(t); WWordsLines l; i >> l; sx_check(i.eof(), "the whole table is read"); size_t k = 0; for (auto &e : v) { if (e.w.size() > 8) continue; sx_check(k < l.size(), "every entry of at most eight bytes is kept"); if (k >= l.size()) return; sx_check(l[k].sv() == std::string_view(e.w), "an entry keeps its word"); sx_check(is(l[k].wlines, e), "an entry keeps its four classes"); sx_observe(l[k].wlines.baseline); k++; } sx_check(k == l.size(), "no other entry appears");
}
HARNESS(h_lookup) {
  std::string t; auto v = entries(P("n", 2), t); std::istringstream i(t); WWordsLines l; i >> l; unsigned g = P("glyphs", 2); std::string gt; std::vector<std::string> gw; for (unsigned k = 0; k < g; k++) { gw.push_back(text("glyph", P("glo", 1), P("glen", P("len", 1)))); gt += "1 1 -\n1\n" + gw.back() + " f 0\n"; }
  std::istringstream gi(gt); Glyphs gl; gi >> gl; sx_check(gl.size() == g, "the glyphs are read"); if (gl.size() != g) return; WordsInfos wi(gl, l);
  for (unsigned k = 0; k < g; k++) { auto p = wi.get(gl[k][0].word); bool any = false, good = false; for (auto &e : v) { bool m = e.w.size() <= 8 && e.w == gw[k]; any |= m; if (p) good |= m & is(p->lines, e); } sx_check((p != nullptr) == any, "a word has classes exactly when an entry names it"); if (p) { sx_check(good, "the classes are those of an entry naming that very word"); sx_check(p->word == gl[k][0].word, "the classes carry the word's identity"); } sx_observe(any); }
  sx_check(wi.get(1) == nullptr, "an identity without word has no classes"); sx_check(wi.get(Glyphs::no_index) == nullptr, "the none identity has no classes");
}
