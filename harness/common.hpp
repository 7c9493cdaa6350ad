#pragma once
#include "sx.h"
#include "sxio.hpp"
#include <memory>
#include <vector>
#include <string>
#include <cstring>
#define HARNESS(name) extern "C" void name()
// few=N: only N of the inputs are free, one every `step` from input number `phase` on; the others are fixed values of their range (fill: 0 random, 1 lowest, 2 highest, 3 two values, 4 rising, 5 falling, 6 three values far apart)
namespace few {
inline unsigned at = 0, used = 0; inline uint32_t rnd = 0;
inline uint64_t pick(bool split, const char *name, uint64_t lo, uint64_t hi) {
  uint64_t n = sx_param("few", 0), i = at++; if (!n || (used < n && i >= sx_param("phase", 0) && (i - sx_param("phase", 0)) % sx_param("step", 1) == 0)) { used++; return split ? sx_choice(name, lo, hi) : sx_range(name, lo, hi); }
  if (!rnd) rnd = (uint32_t)sx_param("seed", 0) * 2654435761u + 99991u; rnd = rnd * 1664525u + 1013904223u; uint64_t r = rnd >> 8, s = hi - lo + 1; if (!s) s = ~0ull;
  switch (sx_param("fill", 0)) { case 1: return lo; case 2: return hi; case 3: return lo + (r & 1) % s; case 4: return lo + i % s; case 5: return hi - i % s; case 6: return lo + r % 3 * ((s - 1) / 2); default: return lo + r % s; }
}
}
#define sx_range(n, a, b) few::pick(false, n, a, b)
#define sx_choice(n, a, b) few::pick(true, n, a, b)
#include "ppocr/image/image.hpp"
#include "ppocr/image/pixel.hpp"
// 'x' is ink (letter), '-' is paper
// part=N: a big image of a fixed pattern (kind, seed) in which N pixels spread over the image are free
inline ppocr::Image part_image(unsigned w, unsigned h, const char *name, unsigned nfree, unsigned kind, unsigned seed, bool any_byte = false) {
  std::unique_ptr<ppocr::Pixel[]> p(new ppocr::Pixel[w * h]); uint32_t r = seed * 2654435761u + 12345u; auto next = [&] { r = r * 1664525u + 1013904223u; return r >> 16; };
  for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { bool ink = false;
    switch (kind) { case 0: ink = next() % 10 < 4 && x % 7 != 6; break; case 1: ink = true; break; case 2: ink = y < h / 2; break; case 3: ink = y % 2 == 0; break; case 4: ink = (x + y) % 2 == 0; break; case 5: ink = x % 2 == 0; break; case 6: ink = false; break; case 7: ink = (x + y) % 2 == 0 || x == 0 || y == 0 || x == w - 1 || y == h - 1; break; case 8: ink = next() % 10 < 8; break; case 9: ink = y >= h / 2; break; case 10: ink = x % 4 == y % 4 || x % 4 == 3; break; }
    p[y * w + x] = ink ? 'x' : '-'; }
  for (unsigned k = 0; k < nfree; k++) p[k == 0 ? w * h - 1 : k == 1 ? w * (h - 1) : (next() * 65537u + next()) % (w * h)] = any_byte ? (ppocr::Pixel)(unsigned char)sx_range(name, 0, 255) : (ppocr::Pixel)('-' + ('x' - '-') * sx_range(name, 0, 1));
  return ppocr::Image(ppocr::Bounds(w, h), std::move(p));
}
inline ppocr::Image sym_image(unsigned w, unsigned h, const char *name = "px", bool any_byte = false) {
  if (sx_param("part", 0)) return part_image(w, h, name, (unsigned)sx_param("part", 0), (unsigned)sx_param("kind", 0), (unsigned)sx_param("seed", 0), any_byte);
  std::unique_ptr<ppocr::Pixel[]> p(new ppocr::Pixel[w * h]);
  for (unsigned i = 0; i < w * h; i++) {
    if (any_byte) p[i] = (ppocr::Pixel)(unsigned char)sx_range(name, 0, 255);
    else p[i] = (ppocr::Pixel)('-' + ('x' - '-') * sx_range(name, 0, 1));
  }
  return ppocr::Image(ppocr::Bounds(w, h), std::move(p));
}
