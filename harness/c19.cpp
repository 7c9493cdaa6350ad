#include "common.hpp"
#include "ppocr/ocr2/data_indexes_ordered.hpp"
#include "ppocr/defined_loader.hpp"
using namespace ppocr;
static unsigned P(const char *n, unsigned d) { return (unsigned)sx_param(n, d); }
using First = loader2::Strategy<strategies::dvgravity2, loader2::PolicyLoader::img90>;
HARNESS(h_range) {
  sx_merge((int)P("merge", 0)); unsigned n = P("n", 3), top = P("top", 200); std::vector<unsigned> v(n); for (auto &x : v) x = (unsigned)sx_range("value", 0, top); unsigned x = (unsigned)sx_range("around", 0, top), d = (unsigned)sx_range("distance", 0, top); sx_assume(x + d >= x);
  loader2::Data<First> data(v); ocr2::DataIndexesOrdered<First> ord(data); auto r = ord.get_range(data, x, d); unsigned lo = x > d ? x - d : 0, hi = x + d; std::vector<unsigned> seen(n); unsigned last = 0, count = 0;
  for (unsigned i : r) { sx_check(i < n, "a returned index is an entry"); if (i >= n) return; seen[i]++; sx_check((v[i] >= lo) & (v[i] <= hi), "every returned entry is in range"); sx_check(v[i] >= last, "entries come in order of value"); last = v[i]; count++; sx_observe(v[i]); }
  for (unsigned i = 0; i < n; i++) sx_check(seen[i] == (unsigned)((v[i] >= lo) & (v[i] <= hi)), "every entry in range is returned exactly once"); sx_check((size_t)r.size() == count, "the range knows its length"); sx_check(r.empty() == (count == 0), "an empty range says so");
}
HARNESS(h_store) { // through a whole store
  unsigned n = P("n", 2); std::vector<unsigned> v(n); for (auto &x : v) x = (unsigned)sx_range("value", 0, 200); unsigned x = (unsigned)sx_range("around", 0, 200), d = (unsigned)sx_range("distance", 0, 30); PpOcrDatas s; s.get<First>() = loader2::Data<First>(v); ocr2::DataIndexesOrdered<First> ord(s); unsigned c = 0, want = 0; for (unsigned i : ord.get_range(s, x, d)) { sx_check((v[i] >= x ? v[i] - x : x - v[i]) <= d, "every returned entry is within the distance"); c++; } for (unsigned w : v) want += (w >= x ? w - x : x - w) <= d; sx_check(c == want, "every entry within the distance is returned"); sx_observe(c);
}
