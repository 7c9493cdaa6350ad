#pragma once
#include "common.hpp"
// Background regions by repeated minimum-label propagation (4-connected); label 0 is ink.
struct ZoneRef { unsigned total = 0, touch[4] = {0, 0, 0, 0}, internal = 0; std::vector<unsigned> share; };
inline ZoneRef zone_ref(ppocr::Image const &img) {
  unsigned W = img.width(), H = img.height(), N = W * H; std::vector<unsigned> lab(N); ZoneRef r;
  for (unsigned i = 0; i < N; i++) lab[i] = sx_fork(img.data()[i] == 'x') ? 0 : i + 1;
  for (bool ch = true; ch;) { ch = false; for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) { unsigned i = y * W + x; if (!lab[i]) continue; auto low = [&](unsigned j) { if (lab[j] && lab[j] < lab[i]) { lab[i] = lab[j]; ch = true; } }; if (x) low(i - 1); if (x + 1 < W) low(i + 1); if (y) low(i - W); if (y + 1 < H) low(i + W); } }
  unsigned sum = 0;
  for (unsigned i = 0; i < N; i++) if (lab[i] == i + 1) { r.total++; unsigned n[4] = {0, 0, 0, 0}; for (unsigned x = 0; x < W; x++) { n[0] += lab[x] == i + 1; n[2] += lab[(H - 1) * W + x] == i + 1; } for (unsigned y = 0; y < H; y++) { n[1] += lab[y * W + W - 1] == i + 1; n[3] += lab[y * W] == i + 1; }
    for (int k = 0; k < 4; k++) r.touch[k] += n[k] > 0; unsigned v = n[0] ? n[0] : n[1] ? n[1] : n[2] ? n[2] : n[3]; if (v) { r.share.push_back(v); sum += v; } else r.internal++; }
  for (unsigned &v : r.share) v = v * 100 / sum;
  for (size_t i = 0; i < r.share.size(); i++) for (size_t j = i + 1; j < r.share.size(); j++) if (r.share[j] < r.share[i]) std::swap(r.share[i], r.share[j]);
  return r;
}
// image with free pixels where the mask has a bit, the others fixed from a second mask (bit i: row-major pixel i)
inline ppocr::Image masked_image(unsigned w, unsigned h, uint64_t free, uint64_t fixed) {
  std::unique_ptr<ppocr::Pixel[]> p(new ppocr::Pixel[w * h]); for (unsigned i = 0; i < w * h; i++) p[i] = (free >> i) & 1 ? (ppocr::Pixel)('-' + ('x' - '-') * sx_range("px", 0, 1)) : (fixed >> i) & 1 ? 'x' : '-';
  return ppocr::Image(ppocr::Bounds(w, h), std::move(p));
}
