#include "tools.hpp"
#include "segref.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/ocr2/compute_image.hpp"
#include "ppocr/image/image_from_file.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/spell/dictionary.hpp"
#include <sstream>
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static Image fixed(unsigned w, unsigned h, unsigned bits) { std::unique_ptr<Pixel[]> p(new Pixel[w * h]); for (unsigned i = 0; i < w * h; i++) p[i] = bits >> i & 1 ? 'x' : '-'; return Image(Bounds(w, h), std::move(p)); }
struct Learned { loader2::Glyphs g; PpOcrDatas d; void add(Image const &i, std::string const &word) { loader2::Glyph x; x.img = i.clone(); loader2::View v; v.word = word; v.font = "0"; v.info_line = 0; x.views.push_back(v); d.load(i); g.push_back(std::move(x)); }
  void files() { std::ostringstream o; o << g; put("G", o.str()); std::ostringstream q; q << d; put("D", q.str()); } };
// what may be read for a character, from the selection alone (checked on its own)
struct Reader { ocr2::Glyphs g; ocr2::DataIndexesByWords peers; std::vector<unsigned> id; using First = loader2::Strategy<strategies::dvgravity2, loader2::PolicyLoader::img90>; PpOcrDatas const &d; ocr2::DataIndexesOrdered<First> ord; Reader(Learned &l, ocr2::Glyphs &&gl) : g(std::move(gl)), peers(g), id(ocr2::get_views_indexes_ordered(g)), d(l.d), ord(l.d) {}
  std::vector<std::string> read(Image const &q) { ocr2::Probabilities p1((unsigned)g.size()), p2((unsigned)g.size()); PpOcrDataCtxs ctx; Image r90 = q.rotate90(); auto r = ocr2::compute_image(PpOcrSimpleDatas(), PpOcrComplexDatas(), PpOcrExclusiveDatas(), p1, p2, d, ord, peers, g, id, q, r90, ctx, 0.5); std::vector<std::string> v; for (ocr2::View const &w : r) { auto &s = g.get_word(w); v.push_back(std::string(s.begin(), s.size())); } return v; } };
struct Answer { std::string text, n, count, rate; bool ok; };
static Answer answer(std::string const &out) { Answer a{"", "", "", "", false}; static const char *const tag[] = {" ## result: ", "\nunrecognized_count: ", "\ncount: ", "\nunrecognized_rate: "}; size_t at[4]; size_t from = 0; for (int i = 0; i < 4; i++) { at[i] = out.find(tag[i], from); if (at[i] == std::string::npos) return a; from = at[i] + strlen(tag[i]); } auto part = [&](int i, size_t e) { size_t b = at[i] + strlen(tag[i]); return out.substr(b, e - b); }; a.text = part(0, at[1]); a.n = part(1, at[2]); a.count = part(2, at[3]); a.rate = part(3, out.size() - 1); a.ok = out.back() == '\n'; return a; }
static std::string shown(double v) { std::ostringstream o; o << v; return o.str(); }
HARNESS(h_text) {
  unsigned w = P("w", 8), h = P("h", 1), extra = P("extra", 0); Image img = sym_image(w, h); if (P("wide", 0)) { unsigned W = w + 5; std::unique_ptr<Pixel[]> p(new Pixel[W * h]); unsigned at = (unsigned)sx_conc(sx_range("gap at", 0, w)); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < W; x++) p[y * W + x] = x < at ? img.data()[y * w + x] : x < at + 5 ? '-' : img.data()[y * w + x - 5]; img = Image(Bounds(W, h), std::move(p)); w = W; }
  Learned l; static const struct { unsigned w, h, bits; } shapes[] = {{1, 1, 1}, {2, 1, 3}, {1, 2, 3}, {2, 2, 11}, {2, 2, 15}, {3, 1, 7}}; unsigned first = P("first", 0), n = P("n", 2); for (unsigned k = 0; k < n; k++) l.add(fixed(shapes[(first + k) % 6].w, shapes[(first + k) % 6].h, shapes[(first + k) % 6].bits), std::string(1, (char)('a' + k))); if (P("twin", 0)) l.add(fixed(shapes[first].w, shapes[first].h, shapes[first].bits), "z"); l.files();
  std::ostringstream o; o << l.g; std::istringstream gi(o.str()); ocr2::Glyphs gl; gi >> gl; Reader rd(l, std::move(gl));
  put("P", bitmap(img)); std::vector<std::string> args{"G", "D", "P"}; if (extra) { std::string lines; if (extra & 1) { for (unsigned k = 0; k < n; k++) { lines += (char)('a' + k); for (unsigned c = 0; c < 4; c++) { lines += ' '; lines += (char)('0' + (c < P("free", 2) && k < P("kinds", 9) ? (unsigned)sx_conc(sx_range("class", 0, P("classes", 1))) : k & 1)); } lines += '\n'; } } put("W", lines); args.push_back("W"); if (extra & 2) { spell::Dictionary dict(std::vector<std::string>{"ab", "ba", "zb"}); std::ostringstream q; q << dict; put("T", q.str()); args.push_back("T"); } }
  Run r = run(tool_ocr2_extract_text, args); sx_check(!r.thrown && r.code == 0, "extracting the text succeeds"); if (r.thrown) return; Answer a = answer(r.out); sx_check(a.ok, "the text and its counts are reported"); if (!a.ok) return;
  auto cuts = ref_cuts(img); unsigned unread = 0; size_t at = 0; std::vector<std::string> readings;
  for (size_t k = 0; k < cuts.size(); k++) {
    unsigned before = k ? cuts[k - 1].x + cuts[k - 1].w : 0; if (k && cuts[k].x > before + 4) { sx_check(at < a.text.size() && a.text[at] == ' ', "a wide gap gives a blank"); at++; sx_reach("a wide gap"); } if (!k && cuts[k].x > 4) sx_reach("a wide margin");
    sx_check(at < a.text.size(), "every character is reported"); if (at >= a.text.size()) return; std::string got(1, a.text[at++]); auto may = rd.read(cut_out(img, cuts[k])); bool known = false; for (auto &s : may) known |= s == got; if (may.empty()) { sx_check(got == "?", "a character without reading is marked"); unread++; } else sx_check(known, "a character is reported as one of its readings"); readings.push_back(got);
    if (P("same", 1)) for (size_t j = 0; j < k; j++) if (cut_out(img, cuts[j]) == cut_out(img, cuts[k])) sx_check(readings[j] == got, "the same shape is read the same way again");
  }
  sx_check(at == a.text.size(), "nothing is reported but the characters and gaps"); sx_check(a.count == std::to_string(cuts.size()), "the characters are counted"); sx_check(a.n == std::to_string(unread), "the unread characters are counted"); sx_check(a.rate == shown(double(unread * 100) / double(cuts.empty() ? 1 : cuts.size())), "the share of unread characters is reported"); sx_observe(cuts.size()); sx_observe(unread);
}
HARNESS(h_alone) { // a learned character standing alone is read as what it was learned as
  unsigned w = P("w", 2), h = P("h", 2), margin = P("margin", 1); unsigned bits = 0; if (P("split", 0)) for (unsigned i = 0; i < w * h; i++) bits |= (unsigned)sx_conc(sx_range("px", 0, 1)) << i; Image img = P("split", 0) ? fixed(w, h, bits) : sym_image(w, h); auto c = ref_cuts(img); sx_assume(c.size() == 1); Image shape = cut_out(img, c[0]); Learned l; if (P("before", 1)) l.add(fixed(P("ow", 3), P("oh", 1), P("obits", 7)), "o"); l.add(shape, "word"); if (P("after", 0)) l.add(fixed(1, 3, 7), "p"); l.files(); bool clash = P("before", 1) && shape == l.g[0].img; clash |= P("after", 0) && shape == l.g.back().img;
  unsigned W = w + 2 * margin; std::unique_ptr<Pixel[]> p(new Pixel[W * h]); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < W; x++) p[y * W + x] = x >= margin && x < margin + w ? img.data()[y * w + x - margin] : '-'; Image pic(Bounds(W, h), std::move(p)); put("P", bitmap(pic));
  Run r = run(tool_ocr2_extract_text, {"G", "D", "P"}); sx_check(!r.thrown && r.code == 0, "extracting the text succeeds"); if (r.thrown) return; Answer a = answer(r.out); sx_observe(a.text.size()); if (!clash) { sx_check(a.text == "word", "a learned character standing alone is read as its word"); sx_check(a.n == "0" && a.count == "1", "one character, none unread"); }
}
HARNESS(h_mismatch) { // a glyph file and a store that do not belong together are refused
  Learned l; l.add(fixed(1, 1, 1), "a"); l.add(fixed(2, 1, 3), "b"); l.files(); if (sx_conc(sx_range("which", 0, 1))) { PpOcrDatas d; std::ostringstream o; o << d; put("D", o.str()); } else put("G", ""); put("P", bitmap(fixed(1, 1, 1))); Run r = run(tool_ocr2_extract_text, {"G", "D", "P"}); sx_check(r.thrown, "a store for other glyphs is refused");
}
HARNESS(h_colour) { // a picture of grey or coloured pixels is read as its ink is, ink being what reading a picture without a threshold calls so
  unsigned w = P("w", 2); Learned l; l.add(fixed(1, 1, 1), "a"); l.add(fixed(2, 1, 3), "b"); l.files(); std::string s = "P6\n" + std::to_string(w) + " 1\n255\n"; for (unsigned i = 0; i < w * 3; i++) s += P("all", 0) ? (char)sx_range("level", 0, 255) : i % 3 == 1 ? (char)sx_range("level", P("lo", 0), P("hi", 255)) : (char)P("rest", 128); put("P", s); put("Q", bitmap(image_from_file("P")));
  Run r = run(tool_ocr2_extract_text, {"G", "D", "P"}), q = run(tool_ocr2_extract_text, {"G", "D", "Q"}); sx_check(!r.thrown && r.code == 0 && !q.thrown && q.code == 0, "extracting the text succeeds"); if (r.thrown || q.thrown) return; Answer a = answer(r.out), b = answer(q.out); sx_check(a.ok && b.ok && a.text == b.text && a.n == b.n && a.count == b.count, "a picture is read as its ink is"); sx_observe(a.text.size());
}
