#include "dictref.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
HARNESS(h_member) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 2), lo = P("lo", 0), hi = P("len", 2), wide = P("wide", 1), let = P("letters", 0); std::vector<std::string> w; for (unsigned i = 0; i < n; i++) w.push_back(sym_utf8("word", lo, hi, wide, let)); std::string q = sym_utf8("asked", P("asklo", 0), P("ask", hi), wide, let);
  spell::Dictionary d(w); bool in = false, any = false; for (auto &x : w) { in |= !x.empty() && x == q; any |= !x.empty(); } bool r = Walk().has(d, q); sx_observe(r); sx_check(r == in, "a text is accepted exactly when it is one of the non-empty words"); sx_check(d.empty() == !any, "the dictionary is empty exactly when no word is");
  for (auto &x : w) if (!x.empty()) { bool h = Walk().has(d, x); sx_check(h, "every word is accepted"); } sx_observe(Walk().nodes(d).size());
}
