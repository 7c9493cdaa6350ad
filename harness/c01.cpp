#include "pnm.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static void head(std::string &f, char t) { f += 'P'; f += t; f += '\n';
  for (unsigned c = P("comments", 0); c; c--) { f += '#'; for (unsigned k = P("clen", 2); k; k--) { char b = (char)sx_range("comment", 0, 255); sx_assume(b != '\n'); f += b; } f += '\n'; }
  f += std::to_string(P("w", 1)); f += ' '; f += std::to_string(P("h", 1)); f += '\n'; if (t == '6' || t == '3') { f += std::to_string(P("max", 255)); f += '\n'; } }
static void load(std::string const &f, unsigned lum, std::vector<char> const &want) {
  sx_vfs_put("i.pnm", f.data(), f.size()); sx_vfs_short_reads((int)P("short", 0)); Image img; bool ok = false;
  try { img = image_from_file("i.pnm", lum); ok = true; } catch (std::exception &) {}
  sx_check(ok, "a well-formed file is accepted"); if (!ok) return;
  sx_check(img.width() == P("w", 1) && img.height() == P("h", 1), "declared dimensions");
  if (img.area() != want.size()) return; bool same = true; for (size_t i = 0; i < want.size(); i++) { same &= img.data()[i] == want[i]; sx_observe((uint64_t)(unsigned char)img.data()[i]); }
  sx_check(same, "pixels are exactly the described ones"); sx_check(sx_open_fds() == 0, "file is closed");
}
HARNESS(h_packed) {
  std::string f; head(f, '4'); unsigned w = P("w", 1), h = P("h", 1); std::vector<char> px;
  for (unsigned y = 0; y < h; y++) for (unsigned k = 0; k < (w + 7) / 8; k++) { unsigned b = (unsigned)sx_range("byte", 0, 255); f += (char)b; for (unsigned x = k * 8; x < w && x < k * 8 + 8; x++) px.push_back((char)('x' + ('-' - 'x') * ((b >> (7 - x % 8)) & 1))); }
  load(f, P("lum", 128), px);
}
HARNESS(h_rgb) {
  std::string f; head(f, '6'); unsigned lum = (unsigned)sx_range("luminance", 0, P("maxlum", 300)); std::vector<char> px;
  for (unsigned i = 0; i < P("w", 1) * P("h", 1); i++) { unsigned r = (unsigned)sx_range("r", 0, 255), g = (unsigned)sx_range("g", 0, 255), b = (unsigned)sx_range("b", 0, 255); f += (char)r; f += (char)g; f += (char)b;
    unsigned c = ((511 * r + 511) >> 10) + ((396 * g + 511) >> 10) + ((117 * b + 511) >> 10); px.push_back((char)('x' + ('-' - 'x') * (int)(c < lum))); }
  load(f, lum, px);
}
HARNESS(h_ascii) {
  std::string f; head(f, P("type", 1) == 1 ? '1' : '3'); std::vector<char> px; unsigned n = P("w", 1) * P("h", 1);
  auto gap = [&] { uint64_t g = sx_conc(sx_range("gap", 0, P("gaps", 2))); if (g == 1) { f += ' '; } else if (g == 2) f += '\n'; else if (g == 3) f += " \n"; };
  for (unsigned i = 0; i < n; i++) { if (P("gaps", 2)) gap(); unsigned v = (unsigned)sx_range("sample", 0, 1); f += (char)('0' + v); px.push_back((char)('-' + ('x' - '-') * (int)v)); }
  if (P("gaps", 2)) gap(); load(f, P("lum", 128), px);
}
