#include "common.hpp"
#include "ppocr/container/trie.hpp"
#include <algorithm>
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
using Trie = container::trie<char>; using Flat = container::flat_trie<char>;
// follows a word; 0: no such path, 1: a path, 2: a path ending a word
template <class R> static unsigned follow(R const &root, std::string const &w, size_t pos = 0) { auto p = root.lower_bound(w[pos]); if (p == root.end() || p->get() != w[pos]) return 0; if (pos + 1 == w.size()) return p->is_terminal() ? 2 : 1; return P("node", 0) ? follow(*p, w, pos + 1) : follow(p->childrens(), w, pos + 1); }
// the flat tree is the tree: same values, marks and order at every level
template <class R> static unsigned same(Trie const &t, R const &f, unsigned depth) {
  sx_check(t.size() == f.size() && t.empty() == bool(f.empty()), "a flattened node has as many children"); if (t.size() != f.size()) return 0; unsigned n = 0; auto b = f.begin(); char last = 0; for (auto a = t.begin(); a != t.end(); ++a, ++b) { sx_check(a->get() == b->get() && a->is_terminal() == b->is_terminal(), "a flattened node keeps its value and mark"); sx_check(a == t.begin() || last < a->get(), "children are in increasing order, each value once"); last = a->get(); sx_check(a->is_terminal() || !a->empty(), "every branch ends in a word"); sx_check(a->size() == a->childrens().size() && b->size() == (size_t)(b->end() - b->begin()), "a node knows its number of children"); sx_check(a->begin() == a->childrens().begin() && a->end() == a->childrens().end() && (size_t)(a->end() - a->begin()) == a->size() && b->begin() == b->childrens().begin() && b->end() == b->childrens().end() && a->empty() == (a->size() == 0) && b->empty() == (b->size() == 0), "the children seen through a node are its children"); n += 1 + same(a->childrens(), b->childrens(), depth + 1); } return n;
}
HARNESS(h_trie) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 2), lo = P("lo", 1), hi = P("len", 2), let = P("letters", 0); auto text = [&](const char *what, unsigned l, unsigned m) { std::string s; unsigned k = (unsigned)sx_conc(sx_range("length", l, m)); for (unsigned i = 0; i < k; i++) s += (char)sx_range(what, let ? 'a' : 0, let ? 'a' + let - 1 : 255); return s; };
  std::vector<std::string> w; for (unsigned i = 0; i < n; i++) w.push_back(text("word", lo, hi)); auto less = [](std::string const &a, std::string const &b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return x < y; }); };
  std::vector<std::string> s; for (auto &x : w) { size_t at = 0; bool dup = false; while (at < s.size() && less(s[at], x)) at++; dup = at < s.size() && s[at] == x; if (!dup) s.insert(s.begin() + (ptrdiff_t)at, x); }
  Trie t(s.begin(), s.end()); Flat f(t); sx_check(t.empty() == s.empty(), "the tree is empty exactly without words"); unsigned nodes = n ? same(t, f.childrens(), 0) : 0; sx_check(f.all().size() == nodes, "the flat tree has exactly the nodes of the tree"); sx_observe(nodes);
  size_t prefixes = 0; for (size_t i = 0; i < s.size(); i++) { size_t c = 0; if (i) while (c < s[i].size() && c < s[i - 1].size() && s[i][c] == s[i - 1][c]) c++; prefixes += s[i].size() - c; } sx_check(nodes == prefixes, "one node per distinct prefix");
  auto ask = [&](std::string const &q) { unsigned want = 0; for (auto &x : s) { if (x == q) want = 2; else if (!want && x.size() > q.size() && x.compare(0, q.size(), q) == 0) want = 1; } unsigned a = follow(t, q); sx_check(a == want, "following a text in the tree tells words, beginnings and others apart"); if (n) { unsigned b = follow(f.childrens(), q); sx_check(b == want, "following a text in the flat tree tells words, beginnings and others apart"); } sx_observe(a); };
  ask(text("asked", 1, P("ask", hi))); if (P("each", 1)) for (auto &x : s) { ask(x); ask(x.substr(0, (x.size() + 1) / 2)); }
  if (P("copy", 0)) { std::vector<Flat::node_type> v; for (auto &x : f.all()) v.emplace_back(x.get(), (unsigned)x.relative_pos(), (unsigned)x.size(), x.is_terminal()); Flat g(v); sx_check(g.all().size() == nodes, "a flat tree rebuilt from its nodes has them all"); if (n) same(t, g.childrens(), 0); Flat h(v.begin(), v.end()), k(std::move(v)); if (n) { same(t, h.childrens(), 0); same(t, k.childrens(), 0); } }
}
