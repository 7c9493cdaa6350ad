#include "common.hpp"
#include "ppocr/image/image_from_string.hpp"
#include <sstream>
using namespace ppocr;
static unsigned W() { return (unsigned)sx_param("w", 2); }
static unsigned H() { return (unsigned)sx_param("h", 2); }

HARNESS(h_section) {
  unsigned w = W(), h = H(); Image img = sym_image(w, h, "px", true);
  unsigned x = (unsigned)sx_conc(sx_range("x", 0, w - 1)), y = (unsigned)sx_conc(sx_range("y", 0, h - 1));
  unsigned sw = (unsigned)sx_conc(sx_range("sw", 0, w - x)), sh = (unsigned)sx_conc(sx_range("sh", 0, h - y));
  Image s = img.section(Index(x, y), Bounds(sw, sh));
  sx_check(s.width() == sw && s.height() == sh, "section has the requested size");
  bool ok = true;
  for (unsigned j = 0; j < sh; j++) for (unsigned i = 0; i < sw; i++) ok &= s.data()[j * sw + i] == img.data()[(j + y) * w + i + x];
  sx_check(ok, "section holds exactly the pixels of the rectangle");
  for (unsigned i = 0; i < sw * sh; i++) sx_observe((unsigned char)s.data()[i]);
  if (sw && sh && sw < w) sx_reach("proper section");
}
HARNESS(h_rotate) {
  unsigned w = W(), h = H(); Image img = sym_image(w, h, "px", true);
  Image c = img.clone();
  bool ok = c.width() == w && c.height() == h; for (unsigned i = 0; i < w * h; i++) ok &= c.data()[i] == img.data()[i];
  sx_check(ok, "copy equals its source"); sx_check(c == img && !(c != img), "copy compares equal"); sx_check(c.data() != img.data(), "copy is independent storage");
  Image r = img.rotate90();
  sx_check(r.width() == h && r.height() == w, "rotation swaps the dimensions");
  ok = true; for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) ok &= r.data()[(w - 1 - x) * h + y] == img.data()[y * w + x];
  sx_check(ok, "rotation sends (x,y) to (y,W-1-x)");
  for (unsigned i = 0; i < w * h; i++) sx_observe((unsigned char)r.data()[i]);
  Image r4 = r.rotate90().rotate90().rotate90();
  sx_check(r4 == img, "four turns are the identity");
}
HARNESS(h_equal) {
  unsigned w = W(), h = H(), w2 = (unsigned)sx_param("w2", w), h2 = (unsigned)sx_param("h2", h);
  Image a = sym_image(w, h, "a", true), b = sym_image(w2, h2, "b", true);
  bool same = w == w2 && h == h2; if (same) for (unsigned i = 0; i < w * h; i++) same &= a.data()[i] == b.data()[i];
  bool eq = a == b, ne = a != b, eq2 = b == a; sx_observe(eq);
  sx_check(eq == same, "equal exactly when dimensions and pixels agree");
  sx_check(ne == !same, "unequal is the negation"); sx_check(eq2 == eq, "equality is symmetric");
}
HARNESS(h_access) {
  unsigned w = W(), h = H(); Image img = sym_image(w, h, "px", true);
  unsigned x = (unsigned)sx_range("x", 0, w - 1), y = (unsigned)sx_range("y", 0, h - 1);
  char want = 0; for (unsigned j = 0; j < h; j++) for (unsigned i = 0; i < w; i++) if (i == x && j == y) want = img.data()[j * w + i];
  sx_check(img[Index(x, y)] == want && *img.data(Index(x, y)) == want, "pixel access by coordinates");
  sx_check(img.area() == w * h && img.data_end() == img.data() + w * h && bool(img), "area and end");
  sx_check(img.bounds().contains(Index(x, y)) && !img.bounds().contains(Index(x + w, y)) && !img.bounds().contains(Index(x, y + h)), "containment");
  sx_check(img.bounds() == Bounds(w, h) && !(img.bounds() == Bounds(w + 1, h)) && !(img.bounds() == Bounds(w, h + 1)), "bounds equality");
  sx_check((Index(x, y) == Index(0, 0)) == (x == 0 && y == 0), "index equality");
  sx_observe((unsigned char)img[Index(x, y)]);
}
HARNESS(h_print) {
  unsigned w = W(), h = H(); Image img = sym_image(w, h);
  std::ostringstream os; os << img; std::string s = os.str();
  std::string want(w + 2, ':'); want += ":\n"; want.erase(0, 0);
  std::string t(w + 2, ':'); t += "\n"; 
  std::string exp = t; for (unsigned y = 0; y < h; y++) { exp += ":"; exp.append(img.data() + y * w, w); exp += ":\n"; } exp += t;
  sx_check(s.size() == exp.size(), "text has one border line, one line per row, one border line");
  bool ok = true; for (size_t i = 0; i < s.size() && i < exp.size(); i++) ok &= s[i] == exp[i];
  sx_check(ok, "text shows every row once, in order"); for (char c : s) sx_observe((unsigned char)c);
}
HARNESS(h_fromstr) {
  unsigned w = W(), h = H(); std::string buf(w * h, '-');
  for (unsigned i = 0; i < w * h; i++) if (sx_range("c", 0, 1)) buf[i] = 'x';
  Image img = image_from_string(Bounds(w, h), buf.c_str());
  bool ok = img.width() == w && img.height() == h; for (unsigned i = 0; i < w * h; i++) ok &= img.data()[i] == buf[i];
  sx_check(ok, "image from text keeps every pixel");
  for (unsigned i = 0; i < w * h; i++) sx_observe((unsigned char)img.data()[i]);
}
HARNESS(h_pointtext) {
  unsigned a = (unsigned)sx_range("a", 0, sx_param("max", 4294967295u)), b = (unsigned)sx_range("b", 0, sx_param("max", 4294967295u));
  std::stringstream s; s << Index(a, b) << ' ' << Bounds(b, a); 
  Index i; Bounds d; s >> i >> d;
  sx_check(bool(s), "coordinates read back"); sx_check(i == Index(a, b) && d == Bounds(b, a), "coordinates survive a text round trip");
  sx_observe(i.x()); sx_observe(i.y()); sx_observe(d.width()); sx_observe(d.height());
}
