#include "tools.hpp"
#include "segref.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/ocr2/word_lines.hpp"
#include "ppocr/utils/read_file.hpp"
#include <sstream>
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
typedef int (*Tool)(int, char **);
static bool refused(Run const &r) { return r.thrown || r.code != 0; }
static bool blank(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
// a text made of words and blanks, remembering where each number starts
struct Text { std::string s; std::vector<size_t> numbers; Text &num(unsigned long v) { numbers.push_back(s.size()); s += std::to_string(v); return *this; } Text &raw(std::string const &x) { s += x; return *this; } };
static Text glyph_file(unsigned n, unsigned views) { Text t; for (unsigned i = 0; i < n; i++) { unsigned w = 1 + i % 2, h = 1 + i % 3; t.num(w).raw(" ").num(h).raw(" "); for (unsigned k = 0; k < w * h; k++) t.s += k % 2 ? '-' : 'x'; t.raw("\n").num(views).raw("\n"); for (unsigned v = 0; v < views; v++) { t.s += (char)('a' + i % 26); t.raw(" F ").num(v + 7 * i).raw("\n"); } } return t; }
static Text words_file(unsigned n) { Text t; for (unsigned i = 0; i < n; i++) { t.s += (char)('a' + i); for (unsigned k = 0; k < 4; k++) t.raw(" ").num((i + k) % 2); t.raw("\n"); } return t; }
static std::string store_for(unsigned n) { PpOcrDatas d; for (unsigned i = 0; i < n; i++) { std::unique_ptr<Pixel[]> p(new Pixel[4]); for (unsigned k = 0; k < 4; k++) p[k] = (i + k) % 2 ? 'x' : 'x'; if (i % 2) p[3] = '-'; d.load(Image(Bounds(2, 2), std::move(p))); } std::ostringstream o; o << d; return o.str(); }
static Text store_text(unsigned n) { Text t; std::string s = store_for(n); for (size_t i = 0; i < s.size(); i++) if (!blank((unsigned char)s[i]) && (i == 0 || blank((unsigned char)s[i - 1]))) t.numbers.push_back(i); t.s = s; return t; }
static std::string dotted() { return std::string("P4\n2 1\n") + (char)0x80; }
static std::string spoil(Text const &t, bool store) { // one byte no number starts with, before one of the numbers
  size_t n = t.numbers.size(); unsigned from = P("from", 0), to = P("to", 9999); if (to >= n) to = (unsigned)n - 1; size_t k = (size_t)sx_conc(sx_range("number", from, to)); unsigned c = (unsigned)sx_range("stray", 0, 255); sx_assume(!(c >= '0' && c <= '9') && c != '+' && c != '-' && !(c == ' ' || (c >= 9 && c <= 13)) && !(store && c == '.')); std::string s = t.s; s.insert(t.numbers[k], 1, (char)c); return s; }
HARNESS(h_usage) { // every number of arguments the tool has no use for
  static const Tool tools[] = {tool_normalize_glyphs, tool_write_datas, tool_write_glyphs, tool_ocr2_extract_text, tool_show_glyphs, tool_make_trie_dictionary}; unsigned t = P("tool", 0), n = (unsigned)sx_conc(sx_range("arguments", 0, P("most", 6))); bool bad = t == 1 ? n != 1 : t == 2 ? n < 3 || n % 3 != 0 : t == 3 ? n < 3 : n < 1; sx_assume(bad); std::vector<std::string> args; for (unsigned i = 0; i < n; i++) args.push_back(std::string(1, (char)sx_range("name", 'A', 'Z'))); Run r = run(tools[t], args); sx_check(!r.thrown && r.code != 0, "a wrong number of arguments is refused"); sx_check(r.out.empty(), "a refused call prints no data"); sx_check(!r.err.empty(), "a refused call says how the tool is used"); sx_observe(n); }
HARNESS(h_missing) { // one of the named files is not there
  unsigned t = P("tool", 0), n = P("n", 2), views = P("views", 1); std::vector<std::string> names; Tool tool; unsigned count = P("files", 1); std::vector<std::string> args;
  if (t == 0) { tool = tool_normalize_glyphs; for (unsigned i = 0; i < count; i++) names.push_back(std::string(1, (char)('A' + i))); args = names; for (auto &x : names) put(x.c_str(), glyph_file(n, views).s); }
  else if (t == 1) { tool = tool_write_datas; names = {"G"}; args = names; }
  else if (t == 2) { tool = tool_write_glyphs; for (unsigned i = 0; i < count; i++) { std::string p(1, (char)('P' + i)), d(1, (char)('A' + i)); put(p.c_str(), dotted()); put(d.c_str(), "w\n"); names.push_back(p); names.push_back(d); args.push_back(p); args.push_back(d); args.push_back("F"); } }
  else { tool = tool_ocr2_extract_text; names = {"G", "D", "P", "W", "T"}; names.resize(2 + count); args = names; put("G", glyph_file(2, 1).s); put("D", store_for(2)); put("P", dotted()); put("W", words_file(2).s); put("T", "0\n"); }
  if (!P("none", 0)) { size_t k = (size_t)sx_conc(sx_range("file", 0, names.size() - 1)); std::string gone = "/nowhere/" + names[k]; for (auto &a : args) if (a == names[k]) a = gone; }
  Run r = run(tool, args); if (P("none", 0)) { sx_check(!refused(r), "files that are all there are accepted"); return; } sx_check(refused(r), "a missing file makes the tool fail"); if (t != 2) sx_check(r.out.find("result") == std::string::npos && (t == 3 || r.out.empty()), "no result is printed when a file is missing"); if (!r.thrown) sx_check(!r.err.empty(), "the missing file is reported"); sx_observe(r.out.size());
}
HARNESS(h_damaged) { // a byte that is no number where a number has to be
  unsigned t = P("tool", 0), n = P("n", 2), views = P("views", 1); bool ok = P("sound", 0); Run r;
  if (t == 0) { Text g = glyph_file(n, views); put("A", glyph_file(1, 1).s); put("B", ok ? g.s : spoil(g, false)); r = P("order", 0) ? run(tool_normalize_glyphs, {"B", "A"}) : run(tool_normalize_glyphs, {"A", "B"}); }
  else if (t == 1) { Text g = glyph_file(n, views), h; for (size_t i = 0; i < g.numbers.size(); i++) if (i % (3 + views) < 3) h.numbers.push_back(g.numbers[i]); h.s = g.s; put("G", ok ? g.s : spoil(h, false)); r = run(tool_write_datas, {"G"}); }
  else { Text g = glyph_file(n, views), c, w = words_file(n), d = store_text(n); for (size_t i = 0; i < g.numbers.size(); i++) if (i % (3 + views) == 2) c.numbers.push_back(g.numbers[i]); c.s = g.s; put("G", t == 2 && !ok ? spoil(c, false) : g.s); put("D", t == 3 && !ok ? spoil(d, true) : d.s); put("P", dotted()); put("W", t == 4 && !ok ? spoil(w, false) : w.s); r = run(tool_ocr2_extract_text, {"G", "D", "P", "W"}); if (!ok) sx_check(r.out.find("result") == std::string::npos, "no result is printed from a damaged file"); }
  if (ok) { sx_check(!refused(r), "an undamaged file is accepted"); return; } sx_check(refused(r), "a damaged file makes the tool fail"); if (t == 0) sx_check(r.out.empty() && !r.err.empty(), "nothing is printed from a damaged file but a message"); if (t == 1) sx_check(!r.err.empty(), "the damaged file is reported"); sx_observe(r.out.size());
}
HARNESS(h_left) { // utils::read_file: a reader that does not reach the end of the file means a damaged file
  unsigned n = P("n", 4), stop = (unsigned)sx_conc(sx_range("read", 0, n)); std::string s; for (unsigned i = 0; i < n; i++) s += (char)sx_range("byte", 0, 255); put("F", s); std::string got; bool thrown = false; bool over = sx_conc(sx_range("once more", 0, 1)); try { utils::check_read_file("F", [&](std::istream &is) { for (unsigned i = 0; i < stop; i++) got += (char)is.get(); if (over) is.peek(); }); } catch (std::exception const &) { thrown = true; } sx_check(got == s.substr(0, stop), "the reader is given the bytes of the file"); bool all = stop == n && over; sx_check(thrown == !all, "a file is accepted exactly when it is read to its end"); sx_observe(thrown); bool none = false, lost = false; try { utils::check_read_file(std::string("nowhere"), [&](std::istream &) { none = true; }); } catch (std::exception const &) { lost = true; } sx_check(lost, "a missing file is refused"); sx_check(!none, "no reader is started on a missing file");
  put("N", "12"); unsigned a = 0, b = 0; bool t1 = false, t2 = false, t3 = false; try { utils::read_file(a, "N"); } catch (std::exception const &) { t1 = true; } try { utils::read_file(b, std::string("N")); } catch (std::exception const &) { t2 = true; } unsigned c = 0; try { c = utils::load_from_file<unsigned>(std::string("N")) + utils::load_from_file<unsigned>("N"); } catch (std::exception const &) { t3 = true; } sx_check(!t1 && !t2 && !t3 && a == 12 && b == 12 && c == 24, "every way to read a file reads it");
}
HARNESS(h_mismatch) { // a store with another number of entries than there are glyphs
  unsigned n = (unsigned)sx_conc(sx_range("glyphs", 0, P("most", 3))), m = (unsigned)sx_conc(sx_range("entries", 0, P("most", 3))); put("G", glyph_file(n, 1).s); put("D", store_for(m)); put("P", dotted()); Run r = run(tool_ocr2_extract_text, {"G", "D", "P"}); sx_check(refused(r) == (n != m), "glyphs and store are used together exactly when they have the same size"); sx_check((r.out.find("result") != std::string::npos) == (n == m), "a result is printed exactly when they have the same size"); sx_observe(n); }
