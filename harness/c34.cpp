#include "dictref.hpp"
#include "tools.hpp"
#include <sstream>
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
// the dictionary tool on word files: every line of every readable file is a word, the others are reported
HARNESS(h_tool) {
  sx_merge((int)P("merge", 0)); unsigned files = P("files", 2), lines = P("lines", 1), lo = P("lo", 0), hi = P("len", 1), wide = P("wide", 1), let = P("letters", 0); static const char *names[] = {"words-a", "words-b", "words-c"}; std::vector<std::string> w, args; unsigned missing = 0;
  for (unsigned f = 0; f < files; f++) {
    if (P("missing", 0) && sx_conc(sx_range("missing file", 0, 1))) { args.push_back("nowhere/file"); missing++; continue; }
    std::string t; unsigned k = (unsigned)sx_conc(sx_range("lines", P("linelo", 0), lines));
    for (unsigned i = 0; i < k; i++) { std::string x = sym_utf8("word", lo, hi, wide, let); for (char c : x) sx_assume(c != '\n'); w.push_back(x); t += x; bool last = i + 1 == k; if (!last || !P("tail", 1) || sx_conc(sx_range("final newline", 0, 1))) t += '\n'; }
    put(names[f], t); args.push_back(names[f]);
  }
  if (P("again", 0)) args.push_back(args[0]);
  std::string q = sym_utf8("asked", P("asklo", 0), P("ask", hi), wide, let);
  Run r = run(tool_make_trie_dictionary, args); sx_check(!r.thrown && r.code == 0, "building the dictionary succeeds");
  bool nl = false, err = !r.err.empty(); sx_check(err == (missing != 0), "a message is given exactly when a file cannot be read"); (void)nl;
  std::istringstream in(r.out); spell::Dictionary d; bool thrown = false; try { in >> d; } catch (...) { thrown = true; } sx_check(!thrown, "the printed dictionary can be read");
  bool want = false, any = false; for (auto &x : w) { want |= !x.empty() && x == q; any |= !x.empty(); } bool got = Walk().has(d, q); sx_observe(got); sx_check(got == want, "the printed dictionary accepts exactly the lines of the files"); sx_check(d.empty() == !any, "the printed dictionary is empty exactly when no file has a word");
  for (auto &x : w) if (!x.empty()) { bool h = Walk().has(d, x); sx_check(h, "every line of every file is accepted"); }
}
HARNESS(h_usage) { Run r = run(tool_make_trie_dictionary, {}); sx_check(r.code != 0 && r.out.empty() && !r.err.empty(), "without files the tool explains itself and fails"); }
