#include "dictref.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
// tries the combinations in order, earlier candidates of earlier positions first
static bool search(std::vector<std::vector<std::string>> const &c, size_t pos, std::string const &sofar, std::vector<std::string> const &words, std::string &out) {
  if (pos == c.size()) { bool in = false; for (auto &w : words) in |= w == sofar; if (in) out = sofar; return in; }
  for (auto &s : c[pos]) if (search(c, pos + 1, sofar + s, words, out)) return true; return false;
}
HARNESS(h_word) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 2), len = P("len", 2), wide = P("wide", 1), let = P("letters", 3), pos = P("pos", 2), cand = P("cand", 2), clen = P("clen", 1); std::vector<std::string> w; for (unsigned i = 0; i < n; i++) w.push_back(sym_utf8("word", 1, len, wide, let));
  std::vector<std::vector<std::string>> c(pos); for (auto &l : c) { unsigned k = P("fixed", 0) ? cand : (unsigned)sx_conc(sx_range("candidates", 0, cand)); for (unsigned j = 0; j < k; j++) l.push_back(sym_utf8("candidate", 1, clen, wide, let)); }
  spell::Dictionary d(w); std::string pre = "p\xC3\xA9 ", out = pre, want = pre, got; bool r = spell::WordDisambiguouser()(d, c.begin(), c.end(), out); bool e = pos && search(c, 0, "", w, got); sx_observe(r); sx_check(r == e, "disambiguation succeeds exactly when a word can be spelled");
  if (e) want += got; sx_check(out == want, "the first spelled word is appended, and nothing on failure"); sx_observe(out.size());
}
