#include "tools.hpp"
#include "segref.hpp"
#include "pnm.hpp"
#include "ppocr/image/image_from_file.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include <sstream>
using namespace ppocr; using loader2::Glyphs;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
template <class T> struct Alone;
template <class T, loader2::PolicyLoader Pol> struct Alone<loader2::Strategy<T, Pol>> { static auto value(Image const &img) { Image r = img.rotate90(); typename T::ctx_type c{}; if (Pol == loader2::PolicyLoader::img) return T::load(img, r, c); return T::load(r, img, c); } };
template <class... S> static void entries(mp_list<S...>, PpOcrDatas const &d, size_t i, Image const &img) { (..., (sx_check(d.get<S>().size() > i && d.get<S>()[i] == Alone<S>::value(img), "entry i holds the features of glyph i"))); }
static void describe(PpOcrDatas const &d, size_t i, Image const &img) { entries(PpOcrSimpleDatas(), d, i, img); entries(PpOcrComplexDatas(), d, i, img); entries(PpOcrExclusiveDatas(), d, i, img); }
static void store_for(Glyphs const &g, const char *file) {
  Run r = run(tool_write_datas, {file}); sx_check(!r.thrown && r.code == 0, "writing the features succeeds"); std::istringstream i(r.out); PpOcrDatas d; i >> d; sx_check(i.eof(), "the store is complete"); sx_check(d.size() == g.size(), "one feature entry per glyph"); if (d.size() == g.size()) for (size_t k = 0; k < g.size(); k++) describe(d, k, g[k].img); sx_observe(d.size());
}
HARNESS(h_pipeline) { // pictures -> glyph file -> normalised glyph file -> feature store
  sx_merge((int)P("merge", 0)); unsigned w = P("w", 3), h = P("h", 2), n = P("pictures", 1), normal = P("normalize", 0); std::vector<std::string> args; std::vector<Image> cuts; std::vector<std::string> words, fonts; bool match = true;
  for (unsigned k = 0; k < n; k++) { unsigned pw = k ? P("w2", w) : w, ph = k ? P("h2", h) : h; Image img = sym_image(pw, ph); auto c = ref_cuts(img); unsigned have = (unsigned)c.size(); if (!P("exact", 0)) { unsigned off = (unsigned)sx_conc(sx_range("words", 0, 2)); have = have + off - (have ? 1 : 0); } match &= have == c.size(); std::string text, font(1, (char)('F' + k)), pic(1, (char)('P' + k)), def(1, (char)('D' + k));
    for (unsigned i = 0; i < have; i++) { std::string word(1, (char)('a' + (10 * k + i) % 26)); for (unsigned z = 1; z < P("wordlen", 1) + i * P("longer", 0); z++) word += (char)('A' + (i * 7 + z * 3) % 58); text += word; if (i + 1 < have || sx_conc(sx_range("newline", 0, 1))) text += "\n"; if (i < c.size()) { words.push_back(word); fonts.push_back(font); cuts.push_back(cut_out(img, c[i])); } } put(pic.c_str(), bitmap(img)); put(def.c_str(), text); args.push_back(pic); args.push_back(def); args.push_back(font); if (!match) break; }
  Run r = run(tool_write_glyphs, args); sx_check(r.thrown == !match, "learning fails exactly when words and characters do not match"); if (r.thrown || !match) { sx_reach("mismatch"); return; } sx_check(r.code == 0, "learning succeeds");
  std::istringstream i(r.out); Glyphs g; i >> g; sx_check(i.eof() && g.size() == cuts.size(), "one glyph per character, in order"); if (g.size() != cuts.size()) return;
  for (size_t k = 0; k < g.size(); k++) { sx_check(g[k].img == cuts[k], "a glyph is the cut-out character"); sx_check(g[k].views.size() == 1 && g[k].views[0].word == words[k] && g[k].views[0].font == fonts[k], "a glyph carries its word and font"); }
  put("G", r.out); if (normal) { Run m = run(tool_normalize_glyphs, {"G"}); sx_check(!m.thrown && m.code == 0, "normalising the learned glyphs succeeds"); put("G", m.out); std::istringstream j(m.out); g = Glyphs(); j >> g; }
  store_for(g, "G");
}
HARNESS(h_store) { // any glyph file: several labels per glyph, odd words
  unsigned n = P("n", 2); Glyphs g; for (unsigned i = 0; i < n; i++) { loader2::Glyph x; x.img = sym_image(i & 1 ? P("h", 1) : P("w", 2), i & 1 ? P("w", 2) : P("h", 1)); unsigned k = (unsigned)sx_conc(sx_range("views", 0, P("views", 2))); for (unsigned j = 0; j < k; j++) { loader2::View v; v.word = std::string(1, (char)sx_range("word", 33, 255)); v.font = "3"; v.info_line = ~0u; x.views.push_back(v); } g.push_back(std::move(x)); }
  std::ostringstream o; o << g; put("G", o.str()); store_for(g, "G");
}
HARNESS(h_luminance) { // -l: a pixel is ink exactly when its luminance reaches the given number
  unsigned w = P("w", 2); std::string num; unsigned len = (unsigned)sx_conc(sx_range("digits", 0, P("digits", 3))); for (unsigned i = 0; i < len; i++) num += (char)sx_conc(sx_range("digit", i + 1 < len || P("junk", 0) == 0 ? '0' : '/', '9' + P("junk", 0))); bool good = len > 0; unsigned lum = 0; for (char c : num) { good &= c >= '0' && c <= '9'; lum = lum * 10 + (unsigned)(c - '0'); }
  std::string s = "P6\n" + std::to_string(w) + " 1\n255\n"; for (unsigned i = 0; i < w * 3; i++) s += i % 3 == 1 || P("all", 0) ? (char)sx_range("level", 0, 255) : (char)90; put("P", s); 
  RefImage ref = ref_read(s, lum, 100); unsigned cells = 0; Image img; if (ref.ok) { std::unique_ptr<Pixel[]> p(new Pixel[w]); for (unsigned i = 0; i < w; i++) p[i] = ref.px[i]; img = Image(Bounds(w, 1), std::move(p)); cells = (unsigned)ref_cuts(img).size(); } std::string text; for (unsigned i = 0; i < cells; i++) text += "x "; put("D", text);
  Run r = run(tool_write_glyphs, {"-l", num, "P", "D", "F"}); if (!good) { sx_check(!r.thrown && r.code == 2, "a malformed luminance is refused"); return; } sx_check(!r.thrown && r.code == 0, "learning with a luminance succeeds"); std::istringstream i(r.out); Glyphs g; i >> g; sx_check(i.eof() && g.size() == cells, "one glyph per character at this luminance"); if (g.size() != cells) return; auto c = ref_cuts(img); for (size_t k = 0; k < g.size(); k++) sx_check(g[k].img == cut_out(img, c[k]), "a glyph is the character at this luminance"); sx_observe(g.size());
}
HARNESS(h_default) { // no -l: ink is what reading a picture without a threshold calls ink, in every picture, so that what is learnt is what will be read
  unsigned n = P("pictures", 1), w = P("w", 2); std::vector<std::string> args; std::vector<Image> want; for (unsigned k = 0; k < n; k++) { std::string name(1, (char)('P' + k)), text(1, (char)('A' + k)), s = "P6\n" + std::to_string(w) + " 1\n255\n"; for (unsigned i = 0; i < w * 3; i++) s += P("all", 0) ? (char)sx_range("level", 0, 255) : i % 3 == 1 ? (char)sx_range("level", P("lo", 0), P("hi", 255)) : (char)P("rest", 128); put(name.c_str(), s);
    Image img = image_from_file(name.c_str()); std::string t; for (auto &c : ref_cuts(img)) { t += "x "; want.push_back(cut_out(img, c)); } put(text.c_str(), t); args.push_back(name); args.push_back(text); args.push_back("F"); }
  Run r = run(tool_write_glyphs, args); sx_check(!r.thrown && r.code == 0, "learning without a luminance succeeds"); std::istringstream i(r.out); Glyphs g; i >> g; sx_check(i.eof() && g.size() == want.size(), "one glyph per character of the picture as read by default"); if (g.size() != want.size()) return; for (size_t k = 0; k < g.size(); k++) sx_check(g[k].img == want[k], "a glyph is the character of the picture as read by default"); sx_observe(g.size());
}
