#include "pnm.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static void decide(std::string const &f, std::string const &seen, unsigned lum) {
  RefImage r = ref_read(seen, lum, 64u << 20); Image img; bool ok = false; bool strange = false;
  try { img = image_from_file("i.pnm", lum); ok = true; } catch (std::exception &) {} catch (...) { strange = true; }
  sx_check(!strange, "rejections are standard exceptions"); sx_check(sx_open_fds() == 0, "file is closed"); sx_observe(ok);
  sx_check(r.ok || !ok, "a malformed file is rejected"); if (!ok || !r.ok) { return; }
  sx_check(img.width() == r.w && img.height() == r.h, "dimensions are those of the header"); if (img.width() != r.w || img.height() != r.h) return;
  sx_reach("accepted"); bool same = true; for (size_t i = 0; i < r.px.size(); i++) { same &= img.data()[i] == r.px[i]; sx_observe((uint64_t)(unsigned char)img.data()[i]); }
  sx_check(same, "every pixel is determined by the file contents");
}
// wholly arbitrary file contents
HARNESS(h_bytes) { unsigned n = P("n", 6); std::string f; for (unsigned i = 0; i < n; i++) f += (char)sx_range("byte", 0, 255); sx_vfs_put("i.pnm", f.data(), f.size()); decide(f, f, 128); }
// a plausible header followed by arbitrary bytes
HARNESS(h_tail) {
  unsigned n = P("n", 6); std::string f("P"); f += (char)('0' + P("type", 4)); f += '\n'; if (P("w", 0)) { f += std::to_string(P("w", 0)) + " " + std::to_string(P("h", 0)) + "\n"; if (P("type", 4) == 3 || P("type", 4) == 6) f += "255\n"; }
  for (unsigned i = 0; i < n; i++) f += (char)sx_range("byte", 0, 255);
  sx_vfs_put("i.pnm", f.data(), f.size()); decide(f, f, 128);
}
// the file shrinks between its size being taken and its contents being read, and reads may be short
HARNESS(h_shrink) {
  static const char *head[] = {"P4\n9 2\n", "P6\n1 2\n255\n", "P1\n2 2\n", "P3\n2 2\n1\n", "P4\n60 9\n", "P6\n6 5\n255\n", "P1\n20 4\n", "P3\n9 7\n1\n"}; unsigned k = P("kind", 0); static const unsigned len[] = {4, 6, 6, 6, 72, 90, 80, 63}; std::string f(head[k]);
  for (unsigned i = 0; i < len[k]; i++) f += k % 4 < 2 ? (char)sx_range("byte", 0, 255) : (char)('0' + sx_range("sample", 0, 1));
  sx_vfs_put("i.pnm", f.data(), f.size()); unsigned cut = (unsigned)sx_conc((sx_range)("cut", 0, f.size())); sx_vfs_truncate(cut); sx_vfs_short_reads((int)P("short", 0));
  decide(f, f.substr(0, f.size() - cut), 128);
}
HARNESS(h_fail) {
  std::string f("P4\n1 1\n\x80"); sx_vfs_put("i.pnm", f.data(), f.size()); unsigned w = (unsigned)sx_conc(sx_range("what", 0, 3)); if (w < 3) sx_vfs_fail((int)w, 1);
  bool ok = false; try { Image i = image_from_file(w == 3 ? "none.pnm" : "i.pnm", 100); ok = true; } catch (std::exception &) {} sx_check(!ok, "an unreadable file is an error"); sx_observe(ok);
}
// dimensions near every overflow, with almost no data
HARNESS(h_dims) {
  sx_alloc_limit(8ull << 30); unsigned n = P("digits", 10); std::string f("P"); f += (char)('0' + P("type", 4)); f += '\n'; 
  std::string a = "4294967", b = std::to_string(P("h", 1)); if (P("swap", 0)) b.swap(a);
  auto digits = [&](std::string &x) { for (unsigned i = 0; i < 3; i++) { x += (char)('0' + sx_conc(sx_range("digit", 0, 9))); } }; digits(P("swap", 0) ? b : a);
  f += a + " " + b + "\n"; if (P("type", 4) == 6) f += "1\n"; for (unsigned i = 0; i < P("n", 0); i++) f += (char)sx_range("byte", 0, 255);
  sx_vfs_put("i.pnm", f.data(), f.size()); bool ok = false; try { Image i = image_from_file("i.pnm", 100); ok = true; } catch (std::exception &) {} sx_check(!ok, "dimensions the data cannot fill are an error"); (void)n;
}
