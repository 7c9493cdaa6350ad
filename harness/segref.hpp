#pragma once
#include "common.hpp"
// Reference segmentation, from the definition: characters are maximal groups of neighbouring columns joined by touching ink, tight at top and bottom.
struct Cut { unsigned x, y, w, h; };
inline std::vector<Cut> ref_cuts(ppocr::Image const &img) {
  unsigned W = img.width(), H = img.height(); std::vector<unsigned char> full(W), joined(W); std::vector<Cut> r;
  auto ink = [&](unsigned x, unsigned y) { return img.data()[y * W + x] == 'x'; };
  for (unsigned x = 0; x < W; x++) { bool f = false, t = false; for (unsigned y = 0; y < H; y++) { f |= ink(x, y); if (x + 1 < W) for (unsigned z = y ? y - 1 : 0; z <= y + 1 && z < H; z++) t |= ink(x, y) & ink(x + 1, z); } full[x] = f; joined[x] = t; }
  for (unsigned x = 0; x < W;) { if (!full[x]) { x++; continue; } unsigned e = x; while (e + 1 < W && joined[e]) e++; unsigned top = H, bot = 0; for (unsigned y = 0; y < H; y++) for (unsigned i = x; i <= e; i++) if (ink(i, y)) { if (y < top) top = y; if (y > bot) bot = y; } r.push_back({x, top, e + 1 - x, bot + 1 - top}); x = e + 1; }
  return r;
}
// the picture as a packed bitmap file
inline std::string bitmap(ppocr::Image const &img) {
  std::string s = "P4\n" + std::to_string(img.width()) + " " + std::to_string(img.height()) + "\n"; for (unsigned y = 0; y < img.height(); y++) for (unsigned x = 0; x < img.width(); x += 8) { unsigned b = 0; for (unsigned i = 0; i < 8; i++) { unsigned bit = x + i < img.width() ? img.data()[y * img.width() + x + i] == '-' : 1; b |= bit << (7 - i); } s += (char)b; } return s;
}
inline ppocr::Image cut_out(ppocr::Image const &img, Cut const &c) { std::unique_ptr<ppocr::Pixel[]> p(new ppocr::Pixel[c.w * c.h]); for (unsigned y = 0; y < c.h; y++) for (unsigned x = 0; x < c.w; x++) p[y * c.w + x] = img.data()[(c.y + y) * img.width() + c.x + x]; return ppocr::Image(ppocr::Bounds(c.w, c.h), std::move(p)); }
