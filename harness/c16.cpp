#include "common.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include <sstream>
using namespace ppocr; using namespace ppocr::loader2;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static std::string text(const char *n, unsigned maxlen) { std::string s; unsigned l = (unsigned)sx_conc(sx_range("length", 1, maxlen)); for (unsigned i = 0; i < l; i++) { unsigned char c = (unsigned char)sx_range(n, 33, 255); s += (char)c; } return s; }
// labels are any non-blank bytes
static Glyphs collection(unsigned n, unsigned w, unsigned h, unsigned views, unsigned top, bool any) {
  Glyphs g; for (unsigned i = 0; i < n; i++) { Glyph x; x.img = sym_image(w, h, "px", any); w = h + 1 > 3 ? 1 : h + 1; for (unsigned k = 0; k < views; k++) { View v; v.word = text("word", P("len", 1)); v.font = text("font", P("len", 1)); v.info_line = (unsigned)sx_range("info", top > 9 ? top - 9 : 0, top); x.views.push_back(std::move(v)); } g.push_back(std::move(x)); if (P("vary", 0) == 1) views++; if (P("vary", 0) == 2) views = views ? views - 1 : 3; } return g;
}
static bool same(Glyph const &a, Glyph const &b, bool info) {
  if (!(a.img == b.img) || a.views.size() != b.views.size()) return false; for (size_t i = 0; i < a.views.size(); i++) if (a.views[i].word != b.views[i].word || a.views[i].font != b.views[i].font || (info && a.views[i].info_line != b.views[i].info_line)) return false; return true;
}
HARNESS(h_roundtrip) {
  Glyphs g = collection(P("n", 2), P("w", 2), P("h", 1), P("views", 1), P("top", 9), P("any", 0)); std::ostringstream o; o << g; std::istringstream i(o.str()); Glyphs r; i >> r; sx_check(i.eof(), "the whole text is consumed"); sx_check(r.size() == g.size(), "the number of glyphs survives");
  if (r.size() == g.size()) for (size_t k = 0; k < g.size(); k++) { sx_check(same(g[k], r[k], true), "every glyph survives with its pixels, words, fonts and line information"); sx_check(g[k] == r[k], "equality of glyphs is equality of their parts"); sx_observe(r[k].views.size()); }
}
HARNESS(h_single) { // one glyph or one view at a time
  Glyphs g = collection(2, P("w", 1), P("h", 2), P("views", 1), P("top", 9), false); std::ostringstream o; o << g[0] << g[1]; std::istringstream i(o.str()); Glyph a, b, c; i >> a >> b; sx_check(!i.fail() && same(g[0], a, true) && same(g[1], b, true), "glyphs read one at a time survive"); i >> c; sx_check(i.fail(), "reading past the last glyph fails");
}
HARNESS(h_cut) {
  Glyphs g = collection(P("n", 1), P("w", 2), P("h", 1), P("views", 1), P("top", 15), false); std::ostringstream o; o << g; std::string s = o.str(); size_t k = (size_t)sx_conc((sx_range)("keep", 0, s.size() - 1)); std::istringstream i(s.substr(0, k)); Glyphs r; i >> r; sx_observe(r.size()); sx_check(r.size() <= g.size(), "a truncated stream yields no extra glyph");
  for (size_t j = 0; j < r.size() && j < g.size(); j++) sx_check(same(g[j], r[j], false), "a truncated stream yields only glyphs that were written"); sx_check(i.fail() && i.eof(), "a truncated stream is at its end");
}
HARNESS(h_order) { // the order of labels is a strict total order that agrees with equality
  View v[3]; for (auto &x : v) { x.word = text("word", 2); x.font = text("font", 1); x.info_line = (unsigned)sx_range("info", 0, ~0u); } bool ab = v[0] < v[1], ba = v[1] < v[0], eq = v[0] == v[1]; sx_check(ab + ba + eq == 1, "exactly one of less, greater and equal holds"); sx_check(!(ab && v[1] < v[2]) || v[0] < v[2], "label order is transitive"); sx_observe(ab);
  sx_check(eq == (v[0].word == v[1].word && v[0].font == v[1].font && v[0].info_line == v[1].info_line), "label equality compares all parts");
}
