#pragma once
#include "common.hpp"
#include "ppocr/image/image_from_file.hpp"
// Reference reader, written from the format: magic, '#' lines, dimensions, maximum (types 2,3,5,6), samples to the end of the file.
struct RefImage { bool ok = false; unsigned w = 0, h = 0; std::vector<char> px; };
static bool ref_uint(std::string const &s, size_t &p, unsigned &n, char next) {
  uint64_t v = 0; size_t q = p; while (q < s.size() && s[q] >= '0' && s[q] <= '9') { v = v * 10 + (unsigned)(s[q] - '0'); if (v > 0xffffffffu) return false; q++; }
  if (q == p || q == s.size() || s[q] != next) return false; n = (unsigned)v; p = q + 1; return true;
}
static RefImage ref_read(std::string const &s, unsigned lum, uint64_t limit) {
  RefImage r; if (s.size() < 3 || s[0] != 'P' || s[2] != '\n') return r; char t = s[1]; if (t != '1' && t != '3' && t != '4' && t != '6') return r;
  size_t p = 3; while (p < s.size() && s[p] == '#') { while (p < s.size() && s[p] != '\n') p++; if (p < s.size()) p++; }
  unsigned m; if (!ref_uint(s, p, r.w, ' ') || !ref_uint(s, p, r.h, '\n')) return r; if ((t == '3' || t == '6') && !ref_uint(s, p, m, '\n')) return r;
  uint64_t area = (uint64_t)r.w * r.h; if (!area || area > limit) return r; size_t left = s.size() - p;
  auto b = [&](size_t i) { return (unsigned)(unsigned char)s[i]; };
  if (t == '6') { if (left != area * 3) return r; for (size_t i = 0; i < area; i++, p += 3) { unsigned c = ((511 * b(p) + 511) >> 10) + ((396 * b(p + 1) + 511) >> 10) + ((117 * b(p + 2) + 511) >> 10); r.px.push_back(c < lum ? '-' : 'x'); } }
  else if (t == '4') { uint64_t row = ((uint64_t)r.w + 7) / 8; if (left != row * r.h) return r; for (unsigned y = 0; y < r.h; y++) for (unsigned x = 0; x < r.w; x++) r.px.push_back((b(p + y * row + x / 8) >> (7 - x % 8)) & 1 ? '-' : 'x'); }
  else { for (; p < s.size(); p++) { if (s[p] == ' ' || s[p] == '\n') continue; if (s[p] != '0' && s[p] != '1') return r; if (r.px.size() == area) return r; r.px.push_back(s[p] == '1' ? 'x' : '-'); } if (r.px.size() != area) return r; }
  r.ok = true; return r;
}
