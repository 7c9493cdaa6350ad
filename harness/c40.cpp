#include "tools.hpp"
#include "segref.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/spell/dictionary.hpp"
#include <sstream>
#include <set>
using namespace ppocr;
extern "C" { int tool_extract_text6(int, char **); int tool_extract_text8(int, char **); }
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static Image fixed(unsigned w, unsigned h, unsigned bits) { std::unique_ptr<Pixel[]> p(new Pixel[w * h]); for (unsigned i = 0; i < w * h; i++) p[i] = bits >> i & 1 ? 'x' : '-'; return Image(Bounds(w, h), std::move(p)); }
template<class... S, class F> static void each(mp_list<S...>, F f) { (..., f(S())); }
struct Learned { std::vector<Image> img; std::vector<std::vector<std::string>> words; PpOcrDatas d;
  void add(Image const &i, std::vector<std::string> w) { d.load(i); img.push_back(i.clone()); words.push_back(w); }
  // whether two entries have all features in common (extract_text8 makes one entry of them)
  bool alike(size_t i, size_t j) const { bool r = true; auto f = [&](auto s) { if (r) r = d.get<decltype(s)>()[i] == d.get<decltype(s)>()[j]; }; each(PpOcrSimpleDatas(), f); each(PpOcrComplexDatas(), f); each(PpOcrExclusiveDatas(), f); return r; }
  void files() { loader2::Glyphs g; for (size_t k = 0; k < img.size(); k++) { loader2::Glyph x; x.img = img[k].clone(); for (auto &s : words[k]) { loader2::View v; v.word = s; v.font = "0"; v.info_line = 0; x.views.push_back(v); } g.push_back(std::move(x)); } std::ostringstream o; o << g; put("G", o.str()); std::ostringstream q; q << d; put("D", q.str()); } };
struct Cand { unsigned i; double p; std::vector<unsigned> f; }; // f: the factors of the score
// which entries may be read for a character, and how well they match
struct Oracle { Learned &l; bool by_tenths; std::vector<Cand> near, kept;
  Oracle(Learned &l, bool t, Image const &q) : l(l), by_tenths(t) { Image r90 = q.rotate90(); size_t n = l.img.size(); std::vector<char> ok(n, 1); std::vector<double> score(n, 1); std::vector<std::vector<unsigned>> fac(n); unsigned at = 0;
    each(PpOcrSimpleDatas(), [&](auto s) { using S = decltype(s); typename S::ctx_type c; unsigned x = S::load(q, r90, c); auto const &d = l.d.get<S>(); unsigned top = d.count_posibilities() - 1; bool first = at++ == 16;
      for (size_t i = 0; i < n; i++) { unsigned v = d[i], far = v < x ? x - v : v - x; if (by_tenths) { unsigned a = v / 10, b = x / 10, f = a < b ? b - a : a - b; ok[i] &= f <= (first ? top / 100 : 0); if (f) score[i] = 0; fac[i].push_back(f); } else { ok[i] &= far <= top / 10; score[i] = score[i] * ((top - (far > top ? top : far)) * 100 / top) / 100; fac[i].push_back(far); } } });
    for (unsigned i = 0; i < n; i++) if (ok[i]) near.push_back({i, score[i], fac[i]}); kept = near;
    each(PpOcrComplexDatas(), [&](auto s) { using S = decltype(s); typename S::ctx_type c; auto x = S::load(q, r90, c); auto const &d = l.d.get<S>(); unsigned top = d.count_posibilities() - 1; std::vector<Cand> next; for (auto &k : kept) { unsigned m = S::relationship_type::compute(d[k.i], x); if (m >= (top + 1) / 2) { next.push_back({k.i, k.p * m / top, k.f}); next.back().f.push_back(m); } } kept = next; });
    std::vector<char> fits(n, 1); each(PpOcrExclusiveDatas(), [&](auto s) { using S = decltype(s); typename S::ctx_type c; auto x = S::load(q, r90, c); auto const &d = l.d.get<S>(); for (size_t i = 0; i < n; i++) fits[i] &= S::relationship_type::compute(d[i], x) >= d.count_posibilities() / 2; });
    std::vector<Cand> next; for (auto &k : kept) { bool peers = false, good = false; for (size_t j = 0; j < n; j++) if (j != k.i && l.words[j][0] == l.words[k.i][0]) { peers = true; good |= fits[j]; } if (!peers || good) next.push_back(k); } kept = next; }
  static double top(std::vector<Cand> const &v) { double m = 0; for (auto &c : v) if (c.p > m) m = c.p; return m; }
  std::set<std::string> words(std::vector<Cand> const &v, bool all) const { std::set<std::string> r; double m = top(v) * 0.999999; for (auto &c : v) if (c.p >= m) { if (all) r.insert(l.words[c.i].begin(), l.words[c.i].end()); else r.insert(l.words[c.i][0]); } return r; }
  // the words which are as good as the one reported, beyond doubt about rounding
  std::set<std::string> tied(std::string const &w) const { auto &v = near.empty() || sure() ? near : kept; double m = top(v) * 0.999999; std::set<std::string> r; bool any = false; for (auto &c : v) if (c.p >= m && l.words[c.i][0] == w) { std::set<std::string> t, u; for (auto &o : v) if (o.f == c.f) t.insert(l.words[o.i].begin(), l.words[o.i].end()); if (any) { for (auto &x : t) if (r.count(x)) u.insert(x); r = u; } else r = t; any = true; } return r; }
  bool sure() const { return !near.empty() && top(near) >= 1; }
  std::set<std::string> one(bool all = false) const { return words(near, all); }
  std::set<std::string> two(bool all = false) const { return near.empty() || sure() ? words(near, all) : words(kept, all); } };
struct Answer { std::string r[3]; bool ok; };
static Answer answer(std::string const &out) { Answer a; a.ok = false; static const char *const tag[] = {" ## result1: ", "\n ## result2: ", "\n ## result3: "}; size_t b = out.rfind(tag[0]); if (b == std::string::npos) return a; for (int i = 0; i < 3; i++) { size_t s = out.find(tag[i], b); if (s == std::string::npos) return a; s += strlen(tag[i]); size_t e = i < 2 ? out.find(tag[i + 1], s) : out.size() - 1; if (e == std::string::npos) return a; a.r[i] = out.substr(s, e - s); b = e; } a.ok = out.back() == '\n'; return a; }
// the readings, each followed by a blank
static bool split(std::string const &s, std::vector<std::string> &v) { std::string w; for (char c : s) if (c == ' ') { v.push_back(w); w.clear(); } else w += c; return w.empty(); }
static Run extract(bool six, std::vector<std::string> args) { return run(six ? tool_extract_text6 : tool_extract_text8, args); }
static Image with_gap(Image img, unsigned w, unsigned h) { unsigned W = w + 5; std::unique_ptr<Pixel[]> p(new Pixel[W * h]); unsigned at = (unsigned)sx_conc(sx_range("gap at", 0, w)); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < W; x++) p[y * W + x] = x < at ? img.data()[y * w + x] : x < at + 5 ? '-' : img.data()[y * w + x - 5]; return Image(Bounds(W, h), std::move(p)); }
// what is reported for a picture is what the oracle allows, character by character
static void reported(bool six, Learned &l, Image const &img) {
  std::vector<std::string> args{"G", "D", "P"}; std::vector<std::string> dict; if (P("dict", 0)) { dict = {"yb", "b", "zz", "yy", "y"}; if (P("dict", 0) == 1) dict.push_back("ab"); spell::Dictionary t(dict); std::ostringstream q; q << t; put("T", q.str()); args.push_back("T"); }
  Run r = extract(six, args); sx_check(!r.thrown && r.code == 0, "extracting the text succeeds"); if (r.thrown) return; Answer a = answer(r.out); sx_check(a.ok, "three results are reported"); if (!a.ok) return;
  std::vector<std::string> one, two; sx_check(split(a.r[0], one) && split(a.r[1], two), "each reading is followed by a blank"); auto cuts = ref_cuts(img); sx_check(one.size() == cuts.size() && two.size() == cuts.size(), "every character is reported once"); if (one.size() != cuts.size() || two.size() != cuts.size()) return;
  std::string text; std::vector<std::set<std::string>> runs, tied; std::string plain; size_t at = 0; bool good = true;
  auto flush = [&] { if (runs.empty()) return; size_t m = runs.size(); std::string got = at + m <= a.r[2].size() ? a.r[2].substr(at, m) : ""; bool any = false, must = false, it = false; for (auto &d : dict) if (d.size() == m) { bool fits = true, sure = true; for (size_t i = 0; i < m; i++) { fits &= runs[i].count(std::string(1, d[i])) != 0; sure &= tied[i].count(std::string(1, d[i])) != 0; } any |= fits; must |= sure; it |= fits && d == got; } good &= must ? it : it || got == plain; if (any && got != plain) sx_reach("a word of the dictionary wins"); at += m; runs.clear(); tied.clear(); plain.clear(); };
  for (size_t k = 0; k < cuts.size(); k++) { Image q = cut_out(img, cuts[k]); Oracle o(l, six, q); auto w1 = o.one(), w2 = o.two(); if (!o.sure() && !w2.empty()) sx_reach("a likely reading"); if (!o.sure() && !w1.empty() && w2.empty()) sx_reach("a near match that does not fit"); if (o.kept.size() > 1 && !o.sure()) sx_reach("several likely readings");
    if (w1.empty()) sx_check(one[k] == "_", "a character nothing learned is near to is marked"); else sx_check(w1.count(one[k]) == 1, "a character is reported as one of the best matches");
    if (w2.empty()) sx_check(two[k] == "_", "a character nothing learned fits is marked"); else sx_check(w2.count(two[k]) == 1, "a character is reported as one of the best fitting matches");
    for (size_t j = 0; j < k; j++) if (cut_out(img, cuts[j]) == q) sx_check(one[j] == one[k] && two[j] == two[k], "the same shape is read the same way again");
    if (k && cuts[k].x > cuts[k - 1].x + cuts[k - 1].w + 4) { flush(); good &= at < a.r[2].size() && a.r[2][at] == ' '; at++; sx_reach("a wide gap"); }
    if (w2.empty()) { flush(); good &= at < a.r[2].size() && a.r[2][at] == '?'; at++; } else if (two[k].size() == 1 && strchr("',.!?\"", two[k][0])) { flush(); good &= at < a.r[2].size() && a.r[2][at] == two[k][0]; at++; } else { runs.push_back(o.two(true)); tied.push_back(o.tied(two[k])); plain += two[k]; } }
  flush(); sx_check(good && at == a.r[2].size(), "the text is the readings joined, with marks for the unread and blanks for wide gaps"); sx_observe(cuts.size());
}
HARNESS(h_text) {
  bool six = P("tool", 6) == 6; unsigned w = P("w", 4), h = P("h", 1); Image img = sym_image(w, h); if (P("wide", 0)) img = with_gap(std::move(img), w, h);
  Learned l; static const struct { unsigned w, h, bits; } shapes[] = {{1, 1, 1}, {2, 1, 3}, {1, 2, 3}, {2, 2, 11}, {2, 2, 15}, {3, 1, 7}, {3, 3, 495}, {3, 3, 511}, {3, 3, 341}, {2, 3, 63}}; unsigned first = P("first", 0), n = P("n", 2), twin = P("twin", 0);
  for (unsigned k = 0; k < n; k++) { auto &s = shapes[(first + k) % 10]; std::vector<std::string> ws{std::string(1, (char)('a' + k))}; if (twin & 1 && !k) ws.push_back("y"); if (twin & 2 && k == 1) ws[0] = "a"; if (P("mark", 0) && k == 1) ws[0] = std::string(1, "',.!?\"-"[P("mark", 0) - 1]); l.add(fixed(s.w, s.h, s.bits), ws); } if (twin & 4) l.add(fixed(shapes[first].w, shapes[first].h, shapes[first].bits), {"z"}); l.files(); put("P", bitmap(img));
  reported(six, l, img);
}
HARNESS(h_near) { // characters close to learned ones: a shape with some pixels changed
  bool six = P("tool", 6) == 6; unsigned w = P("w", 8), h = P("h", 8), n = P("n", 4), kind = P("shape", 0); std::vector<Pixel> b(w * h); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { bool ink = true; switch (kind) { case 1: ink = x < w / 3 || y < h / 3 || y >= h - h / 3; break; case 2: ink = x >= w / 2 || y >= h / 2 || x == y; break; case 3: ink = y == h / 2 || x == 0 || x == w - 1; } b[y * w + x] = ink ? 'x' : '-'; }
  auto make = [&](std::vector<Pixel> const &v) { std::unique_ptr<Pixel[]> p(new Pixel[w * h]); for (unsigned i = 0; i < w * h; i++) p[i] = v[i]; return Image(Bounds(w, h), std::move(p)); };
  Learned l, t; for (unsigned k = 0; k < n; k++) { auto v = b; for (unsigned j = 0; j <= k * P("more", 1); j++) { auto &p = v[(k * 29 + j * 13 + w + 1 + P("seed", 0) * 7) % (w * h)]; p = p == 'x' ? '-' : 'x'; } Image i = make(v); auto c = ref_cuts(i); if (c.size() != 1) continue; t.add(cut_out(i, c[0]), {}); bool twin = false; for (size_t o = 0; o + 1 < t.img.size() && !twin; o++) twin = t.alike(o, t.img.size() - 1); if (twin) continue; l.add(cut_out(i, c[0]), {std::string(1, (char)('a' + (P("peers", 1) == 2 ? k % 2 : P("peers", 1) ? k / 2 : k)))}); } l.files();
  for (unsigned k = 0; k < P("free", 3); k++) b[(k * 17 + 3 * w / 2 + P("seed", 0) * 5) % (w * h)] = (Pixel)('-' + ('x' - '-') * sx_range("px", 0, 1)); if (P("flip", 0)) { unsigned at = (unsigned)sx_conc(sx_range("flip", 0, (w * h - 1) / P("flip", 1))) * P("flip", 1); b[at] = b[at] == 'x' ? '-' : 'x'; } Image img = make(b); put("P", bitmap(img)); reported(six, l, img);
}
HARNESS(h_alone) { // a learned character is read as its word
  bool six = P("tool", 6) == 6; unsigned w = P("w", 2), h = P("h", 2), margin = P("margin", 1); unsigned bits = 0; if (P("split", 1)) for (unsigned i = 0; i < w * h; i++) bits |= (unsigned)sx_conc(sx_range("px", 0, 1)) << i; Image img = P("split", 1) ? fixed(w, h, bits) : sym_image(w, h); auto c = ref_cuts(img); sx_assume(c.size() == 1); Image shape = cut_out(img, c[0]); Learned l; for (unsigned k = 0; k < P("before", 1); k++) l.add(fixed(3 + k % 5, 1 + k / 5, 7 + 8 * k), {std::string(1, (char)('a' + k % 26))}); l.add(shape, {"word"}); if (P("after", 0)) l.add(fixed(1, 3, 7), {"p"}); l.files();
  unsigned W = w + 2 * margin; std::unique_ptr<Pixel[]> p(new Pixel[W * h]); for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < W; x++) p[y * W + x] = x >= margin && x < margin + w ? img.data()[y * w + x - margin] : '-'; Image pic(Bounds(W, h), std::move(p)); put("P", bitmap(pic));
  Run r = extract(six, {"G", "D", "P"}); sx_check(!r.thrown && r.code == 0, "extracting the text succeeds"); if (r.thrown) return; Answer a = answer(r.out); sx_check(a.ok, "three results are reported"); if (!a.ok) return;
  Oracle o(l, six, shape); auto w1 = o.one(); sx_check(w1.count("word") == 1, "the learned character is among the best matches"); sx_observe(w1.size()); if (w1.size() == 1) { sx_check(a.r[0] == "word " && a.r[1] == "word " && a.r[2] == "word", "a learned character standing alone is read as its word"); } else for (int i = 0; i < 2; i++) sx_check(a.r[i].size() > 1 && w1.count(a.r[i].substr(0, a.r[i].size() - 1)) == 1, "a learned character is read as one of the words with its features");
}
HARNESS(h_refuse) { // wrong arguments, missing files, ill-matched files
  bool six = P("tool", 6) == 6; Learned l; l.add(fixed(1, 1, 1), {"a"}); l.add(fixed(2, 1, 3), {"b"}); l.files(); put("P", bitmap(fixed(1, 1, 1))); unsigned which = (unsigned)sx_conc(sx_range("which", 0, 7)); std::vector<std::string> args{"G", "D", "P"}; switch (which) { case 0: case 1: case 2: args.resize(which); break; case 3: { PpOcrDatas d; std::ostringstream o; o << d; put("D", o.str()); break; } case 4: args[0] = "-"; break; case 5: args[1] = "-"; break; case 6: put("G", ""); break; case 7: args[2] = "-"; }
  Run r = extract(six, args); sx_check(r.thrown || r.code != 0, "wrong use fails"); sx_check(!answer(r.out).ok, "nothing is read"); if (which < 3) sx_check(!r.err.empty(), "the usage is printed");
}
