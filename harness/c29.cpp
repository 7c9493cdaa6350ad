#include "tools.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include <sstream>
using namespace ppocr; using namespace ppocr::loader2;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static int order(Image const &a, Image const &b) { if (a.width() != b.width()) return a.width() < b.width() ? -1 : 1; if (a.height() != b.height()) return a.height() < b.height() ? -1 : 1; for (unsigned i = 0; i < a.area(); i++) if (a.data()[i] != b.data()[i]) return a.data()[i] < b.data()[i] ? -1 : 1; return 0; }
static Glyphs parse(std::string const &s) { std::istringstream i(s); Glyphs g; i >> g; sx_check(i.eof(), "the output is a complete glyph file"); return g; }
HARNESS(h_normalize) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 2), files = P("files", 1), views = P("views", 1), mixed = P("mixed", 0); std::vector<Glyphs> in(files); Glyphs all;
  for (unsigned i = 0; i < n; i++) { Glyph x; unsigned w = P("w", 2), h = P("h", 1); if (mixed && sx_conc(sx_range("tall", 0, 1))) { unsigned t = w; w = h; h = t; } x.img = sym_image(w, h); unsigned k = P("fixviews", 0) ? views : (unsigned)sx_conc(sx_range("views", 0, views)); for (unsigned j = 0; j < k; j++) { View v; v.word = std::string(1, (char)sx_range("word", 'a', 'a' + P("words", 1))); v.font = std::string(1, (char)sx_range("font", 'f', 'f' + P("fonts", 0))); v.info_line = (unsigned)sx_range("info", 0, P("infos", 0)); x.views.push_back(v); } Glyph y; y.img = x.img.clone(); y.views = x.views; all.push_back(std::move(y)); in[i * files / n].push_back(std::move(x)); }
  std::vector<std::string> args; for (unsigned f = 0; f < files; f++) { std::ostringstream o; o << in[f]; std::string name(1, (char)('A' + f)); put(name.c_str(), o.str()); args.push_back(name); }
  Run r = run(tool_normalize_glyphs, args); sx_check(!r.thrown && r.code == 0, "normalising a glyph file succeeds"); Glyphs out = parse(r.out); sx_observe(out.size());
  for (size_t i = 0; i + 1 < out.size(); i++) sx_check(order(out[i].img, out[i + 1].img) < 0, "images come in increasing order, each once");
  for (auto &x : all) { unsigned at = 0, k = 0; for (auto &y : out) { if (order(x.img, y.img) == 0) k = (unsigned)(&y - &out[0]), at++; } sx_check(at == 1, "every image is kept"); if (at != 1) return; unsigned shared = 0; for (auto &z : all) shared += order(x.img, z.img) == 0;
    for (auto &v : x.views) { unsigned c = 0; for (auto &u : out[k].views) c += u == v; sx_check(c >= 1, "every label of an image is kept"); if (shared > 1) sx_check(c == 1, "labels of merged glyphs appear once"); }
    if (shared == 1) sx_reach("a glyph that is not merged"); }
  for (auto &y : out) { bool known = false; for (auto &x : all) known |= order(x.img, y.img) == 0; sx_check(known, "no image is invented"); for (auto &u : y.views) { bool has = false; for (auto &x : all) if (order(x.img, y.img) == 0) for (auto &v : x.views) has |= u == v; sx_check(has, "no label is invented"); } }
  put("Z", r.out); Run again = run(tool_normalize_glyphs, {"Z"}); sx_check(again.out == r.out, "normalising again changes nothing");
}
