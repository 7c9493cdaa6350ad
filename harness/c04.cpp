#include "common.hpp"
#include "ppocr/utils/image_compare.hpp"
#include "ppocr/ocr2/cache.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
static int sgn(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
// reference: width, then height, then first differing pixel (as the pixel type compares)
static int ref(Image const &a, Image const &b) {
  if (a.width() != b.width()) return a.width() < b.width() ? -1 : 1;
  if (a.height() != b.height()) return a.height() < b.height() ? -1 : 1;
  int r = 0; for (unsigned i = a.area(); i-- > 0;) { Pixel p = a.data()[i], q = b.data()[i]; r = p < q ? -1 : q < p ? 1 : r; }
  return r;
}
HARNESS(h_pair) {
  bool full = P("full", 1);
  Image a = sym_image(P("w", 2), P("h", 2), "a", full), b = sym_image(P("w2", P("w", 2)), P("h2", P("h", 2)), "b", full);
  int c = image_compare(a, b), d = image_compare(b, a); sx_observe((uint64_t)(sgn(c) + 1)); sx_observe((uint64_t)(sgn(d) + 1));
  sx_check((c == 0) == (a == b), "zero exactly when equal");
  sx_check(sgn(c) == -sgn(d), "sign changes when the operands are swapped");
  sx_check(sgn(c) == ref(a, b), "order is by width, height, first differing pixel");
  sx_check(std::less<Image>()(a, b) == (c < 0), "less<Image> is the same order");
  sx_check(ocr2::def_img_compare()(a, b) == (c < 0), "cache order is the same order");
  sx_check(image_compare(a, a) == 0, "reflexive");
}
HARNESS(h_triple) {
  Image v[3]; for (int i = 0; i < 3; i++) { static const char *wn[] = {"w", "w2", "w3"}, *hn[] = {"h", "h2", "h3"}; v[i] = sym_image(P(wn[i], P("w", 2)), P(hn[i], P("h", 2)), "px", true); }
  int ab = image_compare(v[0], v[1]), bc = image_compare(v[1], v[2]), ac = image_compare(v[0], v[2]);
  sx_observe((uint64_t)(sgn(ab) + 1)); sx_observe((uint64_t)(sgn(bc) + 1)); sx_observe((uint64_t)(sgn(ac) + 1));
  sx_check(!((ab < 0) & (bc < 0)) | (ac < 0), "transitive");
  sx_check(!((ab == 0) & (bc == 0)) | (ac == 0), "equality is transitive");
  sx_check(!((ab == 0) & (bc < 0)) | (ac < 0), "equal images order alike");
}
// an image-keyed cache returns what was stored under an equal image, whatever the insertion order
HARNESS(h_cache) {
  unsigned n = P("n", 3); ocr2::image_cache_type_t cache; std::vector<Image> keys; std::vector<ocr2::View> views(n);
  for (unsigned i = 0; i < n; i++) { unsigned w = P("w", 2), h = P("h", 1); keys.push_back(sym_image(w, h, "px")); }
  for (unsigned i = 0; i < n; i++) if (cache.find(keys[i]) == cache.end()) cache.emplace(keys[i].clone(), ocr2::view_ref_list{views[i]});
  for (unsigned i = 0; i < n; i++) {
    auto it = cache.find(keys[i]); sx_check(it != cache.end(), "stored image is found");
    unsigned first = i; for (unsigned j = i; j-- > 0;) { bool eq = true; for (unsigned k = 0; k < keys[i].area(); k++) eq &= keys[j].data()[k] == keys[i].data()[k]; if (eq) first = j; }
    if (it != cache.end()) { sx_check(&it->second[0].get() == &views[first], "found entry is the one of the first equal image"); sx_observe((uint64_t)(&it->second[0].get() - &views[0])); }
  }
}
