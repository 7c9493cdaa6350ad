#include "common.hpp"
#include "ppocr/ocr2/disambiguous_with_dict.hpp"
#include "ppocr/spell/dictionary.hpp"
#include <sstream>
using namespace ppocr; using namespace ppocr::ocr2;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static const char *const pools[] = {"a,b,.", "a,ab,\xC3\xA9", "ffi,-,b,...", "(,),a"};
static const char *const dicts[] = {"", "ab,ba", "a,aab,\xC3\xA9" "a", "ab,aba,b.,a"};
static std::vector<std::string> split(const char *s) { std::vector<std::string> v; if (!*s) return v; v.push_back(""); for (; *s; s++) if (*s == ',') v.push_back(""); else v.back() += *s; return v; }
static bool punct(std::string const &s) { return s.size() == 1 && strchr("!#$%&'()*+,-.:;<=>?[]{}", s[0]) != nullptr; }
static bool search(std::vector<std::vector<std::string>> const &c, size_t pos, size_t end, std::string const &sofar, std::vector<std::string> const &words, std::string &out) {
  if (pos == end) { for (auto &w : words) if (w == sofar) { out = sofar; return true; } return false; }
  for (auto &s : c[pos]) if (search(c, pos + 1, end, sofar + s, words, out)) return true; return false;
}
HARNESS(h_text) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 3), maxv = P("views", 2); auto pool = split(pools[P("pool", 0)]), dw = split(dicts[P("dict", 1)]); if (P("comma", 0)) pool[2] = ",";
  std::string gt; for (auto &s : pool) gt += "1 1 -\n1\n" + s + " f 0\n"; std::istringstream gi(gt); Glyphs gl; gi >> gl; spell::Dictionary dict(dw);
  std::vector<View> store; store.reserve(n * maxv + 1); std::vector<view_ref_list> lists(n); std::vector<std::vector<std::string>> words(n);
  for (unsigned i = 0; i < n; i++) { unsigned k = (unsigned)sx_conc(sx_range("readings", 0, maxv)); for (unsigned j = 0; j < k; j++) { unsigned w = (unsigned)sx_conc(sx_range("word", 0, pool.size() - 1)); store.push_back(View{gl[w][0].word, j}); lists[i].push_back(store.back()); words[i].push_back(pool[w]); } }
  ambiguous_t amb; for (auto &l : lists) amb.push_back(l);
  // word gaps: an increasing list of positions ending with the number of positions, possibly starting with 0
  std::vector<unsigned> spaces; std::vector<unsigned char> gap(n + 1, 0); for (unsigned i = 0; i < n; i++) if (sx_conc(sx_range("gap", 0, 1))) { spaces.push_back(i); gap[i] = i > 0; } spaces.push_back(n);
  std::string out = "old"; unsigned r = disambiguous_with_dict(amb, gl, dict, spaces.cbegin(), out); std::string want; unsigned miss = 0; bool helped = false;
  for (unsigned i = 0; i < n;) { if (gap[i]) want += ' '; if (words[i].empty()) { want += '?'; miss++; i++; } else if (punct(words[i][0])) { want += words[i][0]; i++; } else { unsigned e = i; do e++; while (e < n && !gap[e] && !words[e].empty() && !punct(words[e][0])); std::string w; if (!dw.empty() && search(words, i, e, "", dw, w)) { want += w; helped = true; } else for (unsigned k = i; k < e; k++) want += words[k][0]; i = e; } }
  sx_observe(out.size()); sx_observe(r); sx_check(r == miss, "the count is the number of positions without reading"); sx_check(out == want, "each position is written once, with its gaps and unknown marks"); if (helped) sx_reach("dictionary word");
}
// the punctuation test, for every one-byte word
HARNESS(h_mark) {
  unsigned char c = (unsigned char)sx_range("word", 33, 127); std::string gt = "1 1 -\n1\n"; gt += (char)c; gt += " f 0\n1 1 -\n1\nb f 0\n"; std::istringstream gi(gt); Glyphs gl; gi >> gl; sx_check(gl.size() == 2, "the glyphs are read"); if (gl.size() != 2) return; spell::Dictionary dict(std::vector<std::string>{"x"}); view_ref_list a{gl[0][0]}, b{gl[1][0]}, e; ambiguous_t amb{b, a, e, a, b}; std::vector<unsigned> sp{1, 4, 5}; std::string out; unsigned r = disambiguous_with_dict(amb, gl, dict, sp.cbegin(), out);
  std::string want = "b "; want += (char)c; want += '?'; want += (char)c; want += " b"; sx_check(out == want, "every one-byte word is written as itself"); sx_check(r == 1, "one position has no reading"); sx_observe(out.size());
}
// which one-byte words end a dictionary word: the letters around the word are looked up alone exactly when it is a punctuation mark
HARNESS(h_break) {
  unsigned char c = (unsigned char)sx_range("word", 33, 127); bool two = P("two", 0), high = P("high", 0); std::string m(1, (char)c); if (two) m += high ? '!' : 'q'; std::string gt = "1 1 -\n1\n" + m + " f 0\n1 1 -\n1\nb f 0\n1 1 -\n1\nd f 0\n"; std::istringstream gi(gt); Glyphs gl; gi >> gl; if (gl.size() != 3) { sx_check(false, "the glyphs are read"); return; }
  spell::Dictionary dict(std::vector<std::string>{"d"}); view_ref_list mark{gl[0][0]}, bd{gl[1][0], gl[2][0]}; ambiguous_t amb{bd, mark, bd}; std::vector<unsigned> sp{3}; std::string out; disambiguous_with_dict(amb, gl, dict, sp.cbegin(), out); std::string want = punct(m) ? "d" + m + "d" : "b" + m + "b"; sx_check(out == want, "a word ends at exactly the punctuation marks"); if (punct(m)) sx_reach("a mark"); sx_observe(out.size());
}
