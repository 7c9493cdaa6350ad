#include "tools.hpp"
#include "segref.hpp"
#include "pnm.hpp"
#include "ppocr/image/image_from_file.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static std::string drawn(Image const &img) { std::string s; for (auto &c : ref_cuts(img)) { std::string edge(c.w + 2, ':'); s += edge + "\n"; for (unsigned y = 0; y < c.h; y++) { s += ':'; for (unsigned x = 0; x < c.w; x++) s += img.data()[(c.y + y) * img.width() + c.x + x]; s += ":\n"; } s += edge + "\n\n"; } return s; }
HARNESS(h_show) { // any number of pictures
  sx_merge((int)P("merge", 0)); unsigned n = P("pictures", 1), w = P("w", 3), h = P("h", 2); std::vector<std::string> args; std::string want; unsigned bad = P("bad", 0); bool stopped = false;
  for (unsigned k = 0; k < n; k++) { std::string name(1, (char)('P' + k)); args.push_back(name); if (bad && k + 1 == bad) { stopped = true; if (sx_conc((sx_range)("missing", 0, 1))) continue; put(name.c_str(), "P4\n3 1\n"); continue; } Image img = sym_image(k ? P("w2", w) : w, k ? P("h2", h) : h); put(name.c_str(), bitmap(img)); if (!stopped) want += drawn(img); }
  Run r = run(tool_show_glyphs, args); sx_check(r.thrown == (bad != 0), "showing fails exactly when a picture cannot be read"); if (!bad) sx_check(r.code == 0, "showing readable pictures succeeds"); sx_check(r.out == want, "every character of every picture is drawn once, in order"); sx_observe(r.out.size()); sx_observe(r.err.size());
}
HARNESS(h_luminance) {
  unsigned w = P("w", 2); std::string num; unsigned len = (unsigned)sx_conc(sx_range("digits", 0, P("digits", 3))); for (unsigned i = 0; i < len; i++) num += (char)sx_conc(sx_range("digit", P("junk", 0) == 0 ? '0' : '/', '9' + P("junk", 0))); bool good = len > 0; unsigned lum = 0; for (char c : num) { good &= c >= '0' && c <= '9'; lum = lum * 10 + (unsigned)(c - '0'); }
  std::string s = "P6\n" + std::to_string(w) + " 1\n255\n"; for (unsigned i = 0; i < w * 3; i++) s += i % 3 == 1 || P("all", 0) ? (char)sx_range("level", 0, 255) : (char)90; put("P", s);
  RefImage ref = ref_read(s, lum, 100); std::string want; if (ref.ok) { std::unique_ptr<Pixel[]> p(new Pixel[w]); for (unsigned i = 0; i < w; i++) p[i] = ref.px[i]; want = drawn(Image(Bounds(w, 1), std::move(p))); }
  Run r = run(tool_show_glyphs, {"-l", num, "P"}); if (!good) { sx_check(!r.thrown && r.code == 2 && r.out.empty(), "a malformed luminance is refused"); return; } sx_check(!r.thrown && r.code == 0, "showing with a luminance succeeds"); sx_check(r.out == want, "the characters at this luminance are drawn"); sx_observe(r.out.size());
}
HARNESS(h_default) { // no -l: ink is what reading a picture without a threshold calls ink, in every picture
  unsigned n = P("pictures", 1), w = P("w", 2); std::vector<std::string> args; std::string want; for (unsigned k = 0; k < n; k++) { std::string name(1, (char)('P' + k)), s = "P6\n" + std::to_string(w) + " 1\n255\n"; for (unsigned i = 0; i < w * 3; i++) s += P("all", 0) ? (char)sx_range("level", 0, 255) : i % 3 == 1 ? (char)sx_range("level", P("lo", 0), P("hi", 255)) : (char)P("rest", 128); put(name.c_str(), s); args.push_back(name); Image img = image_from_file(name.c_str()); want += drawn(img); }
  Run r = run(tool_show_glyphs, args); sx_check(!r.thrown && r.code == 0, "showing without a luminance succeeds"); sx_check(r.out == want, "without a luminance the characters of the picture as read by default are drawn"); sx_observe(r.out.size());
}
HARNESS(h_usage) { Run r = run(tool_show_glyphs, {}); sx_check(!r.thrown && r.code != 0 && r.out.empty() && !r.err.empty(), "without pictures the tool explains itself and fails"); }
