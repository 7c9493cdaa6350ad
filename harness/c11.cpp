#include "zoneref.hpp"
#include "ppocr/strategies/zone.hpp"
#include "ppocr/strategies/proportionality_zone.hpp"
using namespace ppocr; using namespace ppocr::strategies;
static void decide(Image const &img) {
  zone::ctx_type c1, c2; proportionality_zone::ctx_type d1; bool order = sx_param("order", 0) != 0;
  zone::value_type z; proportionality_zone::value_type p;
  if (order) { p = proportionality_zone::load(img, img, c1); z = zone::load(img, img, c1); } else { z = zone::load(img, img, c1); p = proportionality_zone::load(img, img, c1); }
  ZoneRef r = zone_ref(img);
  for (unsigned v : z) sx_observe(v); for (unsigned v : p) sx_observe(v);
  sx_check(z[0] == (unsigned)(img.data()[0] == 'x') && z[1] == (unsigned)(img.data()[img.area() - 1] == 'x'), "corner bits"); 
  sx_check(z[2] == r.touch[0] && z[3] == r.touch[1] && z[4] == r.touch[2] && z[5] == r.touch[3], "number of regions touching each side");
  sx_check(z[6] == r.internal, "number of internal regions"); if (r.internal) sx_reach("an internal region");
  bool same = p.size() == r.share.size(); for (size_t i = 0; i < p.size() && same; i++) same = p[i] == r.share[i]; sx_check(same, "sorted border shares");
  if (p.size() > 1) sx_reach("several border regions");
}
HARNESS(h_zone) { unsigned W = (unsigned)sx_param("w", 3), H = (unsigned)sx_param("h", 3); decide(sx_param("part", 0) ? sym_image(W, H) : masked_image(W, H, sx_param("free", ~0ull), sx_param("fixed", 0))); }
// the same context is reused for a larger, then a smaller image
HARNESS(h_reuse) {
  zone::ctx_type c; Image a = masked_image((unsigned)sx_param("w", 2), (unsigned)sx_param("h", 2), ~0ull, 0), b = masked_image((unsigned)sx_param("w2", 3), (unsigned)sx_param("h2", 1), ~0ull, 0);
  zone::load(a, a, c); c.reset(); auto z = zone::load(b, b, c); auto p = proportionality_zone::load(b, b, c); ZoneRef r = zone_ref(b); for (unsigned v : z) sx_observe(v);
  sx_check(z[2] == r.touch[0] && z[3] == r.touch[1] && z[4] == r.touch[2] && z[5] == r.touch[3] && z[6] == r.internal && p == r.share, "a reused context describes the new image only");
}
