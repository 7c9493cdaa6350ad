#include "dictref.hpp"
#include <sstream>
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static spell::Dictionary make(std::vector<std::string> &w) { unsigned n = P("n", 2); for (unsigned i = 0; i < n; i++) w.push_back(sym_utf8("word", P("lo", 0), P("len", 2), P("wide", 1), P("letters", 0))); return spell::Dictionary(w); }
HARNESS(h_roundtrip) {
  std::vector<std::string> w; spell::Dictionary d = make(w); std::ostringstream o; o << d; std::istringstream i(o.str()); bool skip = P("skipws", 1); if (!skip) i >> std::noskipws; auto f = i.flags(); spell::Dictionary e; if (P("dirty", 0)) e = spell::Dictionary(std::vector<std::string>{"zz", "y"}); i >> e; sx_check(i.flags() == f, "the stream's formatting is restored"); sx_check(i.eof(), "the whole text is consumed");
  auto &a = Walk().nodes(d), &b = Walk().nodes(e); sx_check(a.size() == b.size(), "every node survives"); sx_observe(b.size()); for (size_t k = 0; k < a.size() && k < b.size(); k++) sx_check((a[k].get() == b[k].get()) & (a[k].size() == b[k].size()) & (a[k].is_terminal() == b[k].is_terminal()) & (a[k].relative_pos() == b[k].relative_pos()), "a node survives unchanged");
  std::string q = sym_utf8("asked", 0, P("len", 2), P("wide", 1), P("letters", 0)); bool in = false; for (auto &x : w) in |= !x.empty() && x == q; sx_check(Walk().has(e, q) == in, "the dictionary read back accepts exactly the words"); for (auto &x : w) if (!x.empty()) { bool h = Walk().has(e, x); sx_check(h, "the dictionary read back accepts every word"); }
}
// one separator replaced by any other byte that is not part of a number
HARNESS(h_separator) {
  std::vector<std::string> w{"ab", "b"}; std::ostringstream o; o << spell::Dictionary(w); std::string s = o.str(); size_t k = (size_t)sx_conc((sx_range)("position", 0, s.size() - 1)); bool sep = s[k] == ' ' || s[k] == '\n'; if (!sep) return; unsigned char c = (unsigned char)(sx_range)("byte", 0, 255); sx_assume(!(c >= '0' && c <= '9') && (char)c != s[k]); s[k] = (char)c; std::istringstream i(s); auto f = i.flags(); spell::Dictionary e; bool thrown = false; try { i >> e; } catch (std::runtime_error const &) { thrown = true; }
  sx_observe(thrown); sx_check(thrown, "a malformed separator is an error"); sx_check(i.flags() == f, "the formatting is restored after an error"); sx_reach("separator");
}
