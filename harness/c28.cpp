#include "common.hpp"
#include "ppocr/ocr2/replacement.hpp"
#include <sstream>
using namespace ppocr::ocr2;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static std::string text(const char *n, unsigned lo, unsigned hi, unsigned first, unsigned last) { std::string s; unsigned l = (unsigned)sx_conc(sx_range("length", lo, hi)); for (unsigned i = 0; i < l; i++) s += (char)sx_range(n, first, last); return s; }
static std::string once(std::string const &s, std::string const &p, std::string const &r) {
  if (p.empty()) return s; std::string o; for (size_t i = 0; i < s.size();) { bool m = i + p.size() <= s.size(); for (size_t k = 0; m && k < p.size(); k++) m = s[i + k] == p[k]; if (m) { o += r; i += p.size(); } else o += s[i++]; } return o;
}
HARNESS(h_replace) {
  unsigned a = P("alphabet", 0), lo = a ? 'a' : 0, hi = a ? 'a' + a - 1 : 255; std::string s = text("text", P("textlo", 0), P("text", 4), lo, hi), want = s; Replacements r; for (unsigned i = 0; i < P("rules", 1); i++) { Replacement x; x.pattern = text("pattern", P("patlo", 0), P("pat", 2), lo, hi); x.replace = text("replacement", P("replo", 0), P("rep", 2), lo, hi); r.push_back(x); want = once(want, x.pattern, x.replace); }
  replace_words(s, r); sx_observe(s.size()); sx_check(s == want, "occurrences are replaced left to right without rescanning"); 
}
HARNESS(h_list) {
  unsigned n = P("rules", 2); std::string t; Replacements want; for (unsigned i = 0; i < n; i++) { Replacement x; x.pattern = text("pattern", 1, P("pat", 2), 33, 255); x.replace = text("replacement", 0, P("rep", 2), 33, 255); t += x.pattern; if (!x.replace.empty()) t += " " + x.replace; if (i + 1 < n || sx_conc(sx_range("newline", 0, 1))) t += '\n'; want.push_back(x); }
  std::istringstream i(t); Replacements r; i >> r; sx_check(i.eof(), "the whole list is read"); sx_observe(r.size()); sx_check(r.size() == n, "every rule is kept"); for (size_t k = 0; k < n && k < r.size(); k++) { sx_check(r[k].pattern == want[k].pattern, "a rule keeps its pattern"); sx_check(r[k].replace == want[k].replace, "a rule keeps its replacement, or none"); }
}
