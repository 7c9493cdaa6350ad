#include "common.hpp"
#include "ppocr/ocr2/filter_by_lines.hpp"
#include <sstream>
using namespace ppocr; using namespace ppocr::ocr2;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
struct Cls { bool known; unsigned mean, base; };
// a word's class for a line says where its edge lies: Upper = above the line, Below = on it, Above = under it
static bool contradicts(unsigned cls, unsigned pos, unsigned line) {
  switch (cls) { case 1: return pos + 1 >= line; case 2: return pos > line + 1 || pos + 1 < line; case 4: return pos <= line + 1; case 3: return pos >= line; case 6: return pos <= line; default: return false; }
}
HARNESS(h_lines) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 2), maxv = P("views", 2), nw = P("words", 2); bool share = P("share", 0);
  std::istringstream gi("1 1 -\n1\na f 0\n1 1 -\n1\nb f 0\n1 1 -\n1\nc f 0\n"); Glyphs gl; gi >> gl; WWordsLines wl; Cls cls[3];
  for (unsigned k = 0; k < 3; k++) { cls[k] = {k < nw, 0, 0}; if (!cls[k].known) continue; WWordLines e; e.str_data[0] = (char)('a' + k); e.str_len = 1; e.wlines.ascentline = 0; e.wlines.capline = 0; cls[k].mean = (unsigned)sx_range("mean", 0, P("cls", 7)); cls[k].base = (unsigned)sx_range("base", 0, P("cls", 7)); if (P("below", 0) && !k) sx_assume(cls[k].mean == 2 && cls[k].base == 2); e.wlines.meanline = cls[k].mean; e.wlines.baseline = cls[k].base; wl.push_back(e); }
  WordsInfos wi(gl, wl); std::vector<View> store; store.reserve(n * maxv + 1); std::vector<view_ref_list> lists(n); std::vector<std::vector<unsigned>> word(n);
  for (unsigned i = 0; i < n; i++) { bool plain = i >= P("amb", n); unsigned k = plain ? 1 : P("fixed", 0) ? maxv : (unsigned)sx_conc(sx_range("readings", 0, maxv)); for (unsigned j = 0; j < k; j++) { unsigned w = plain ? 2 : P("cycle", 0) ? (j + i) % P("cycle", 0) : (unsigned)sx_conc(sx_range("word", 0, P("ids", 2))); store.push_back(View{gl[w][0].word, j}); lists[i].push_back(store.back()); word[i].push_back(w); } }
  std::vector<Box> boxes; for (unsigned i = 0; i < n; i++) boxes.push_back(Box(Index(i, (unsigned)sx_range("top", P("low", 0), P("low", 0) + P("tops", 4))), Bounds(1, (unsigned)sx_range("height", 1, P("heights", 4)))));
  ambiguous_t amb; std::vector<unsigned> id(n); for (unsigned i = 0; i < n; i++) { id[i] = share && i == n - 1 ? 0 : i; amb.push_back(lists[id[i]]); }
  std::vector<std::vector<std::pair<View const *, unsigned>>> want(n); for (unsigned i = 0; i < n; i++) for (size_t k = 0; k < lists[i].size(); k++) want[i].push_back({&lists[i][k].get(), word[i][k]});
  filter_by_lines(amb, wi, boxes); if (!n) { sx_check(amb.empty(), "nothing stays nothing"); return; }
  // reference: the most frequent position (the smallest on a tie)
  auto mode = [&](std::vector<unsigned> const &v, std::vector<unsigned char> const &use) { unsigned best = 0, bc = 0; for (size_t i = 0; i < v.size(); i++) { unsigned c = 0; for (size_t j = 0; j < v.size(); j++) c += use[j] & (v[j] == v[i]); bool better = use[i] & ((c > bc) | ((c == bc) & (v[i] < best))); best = better ? v[i] : best; bc = better ? c : bc; } return best; };
  std::vector<unsigned> top, bot; for (auto &b : boxes) { top.push_back(b.y()); bot.push_back(b.y() + b.height() - 1); } std::vector<unsigned char> all(n, 1), use(n, 0); unsigned base = mode(bot, all); bool has = false;
  auto filter = [&](std::vector<std::pair<View const *, unsigned>> &l, auto bad) { unsigned groups = 0; for (size_t k = 0; k < l.size(); k++) groups += !k || l[k].second != l[k - 1].second; if (groups < 2) return 0u; std::vector<std::pair<View const *, unsigned>> r; unsigned kept = 0; bool prev = false; for (size_t k = 0; k < l.size(); k++) { bool start = !k || l[k].second != l[k - 1].second; if (start) { prev = !bad(l[k].second); kept += prev; } if (prev) r.push_back(l[k]); } if (!r.empty()) l = r; return kept; };
  for (unsigned i = 0; i < n; i++) { auto &l = want[id[i]]; unsigned kept = filter(l, [&](unsigned w) { return cls[w].known && contradicts(cls[w].base, bot[i], base); }); if (kept == 1 && cls[l[0].second].known && cls[l[0].second].mean == 2 && cls[l[0].second].base == 2) { use[i] = 1; has = true; } }
  if (has) { unsigned mean = mode(top, use); sx_reach("mean line"); for (unsigned i = 0; i < n; i++) filter(want[id[i]], [&](unsigned w) { return cls[w].known && contradicts(cls[w].mean, top[i], mean); }); }
  for (unsigned i = 0; i < n; i++) { if (id[i] != i) continue; auto &a = lists[i]; sx_observe(a.size()); sx_check(a.empty() == word[i].empty(), "a position that had readings keeps one"); sx_check(a.size() == want[i].size(), "exactly the readings contradicting a line are removed"); for (size_t k = 0; k < a.size() && k < want[i].size(); k++) sx_check(&a[k].get() == want[i][k].first, "the remaining readings keep their order"); }
}
