#pragma once
#include "common.hpp"
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/utils/utf.hpp"
// walks the flattened tree through its public interface
struct Walk : ppocr::spell::Dictionary::Manipulator {
  bool has(ppocr::spell::Dictionary const &d, std::string const &w) const {
    auto &t = this->trie(d); if (t.all().empty() || w.empty()) return false; auto rng = t.childrens(); bool term = false; ppocr::utf::UTF8Iterator it(w.c_str());
    for (uint32_t c; (c = *it); ++it) { auto p = rng.lower_bound(c); if (p == rng.end() || p->get() != c) return false; term = p->is_terminal(); rng = p->childrens(); } return term; }
  auto const &nodes(ppocr::spell::Dictionary const &d) const { return this->trie(d).all(); }
};
// a text of up to n characters, each of one to `wide` bytes
inline std::string sym_utf8(const char *name, unsigned lo, unsigned hi, unsigned wide, unsigned letters = 0) {
  std::string s; unsigned k = (unsigned)sx_conc(sx_range("length", lo, hi));
  for (unsigned i = 0; i < k; i++) { unsigned b = wide > 1 ? (unsigned)sx_conc(sx_range("bytes", 1, wide)) : 1;
    if (b == 1) s += (char)sx_range(name, letters ? 'a' : 1, letters ? 'a' + letters - 1 : 127);
    else if (b == 2) { s += (char)sx_range(name, 0xC3, letters ? 0xC3 : 0xDF); s += (char)sx_range(name, letters ? 0xA9 : 0x80, letters ? 0xAA : 0xBF); }
    else if (b == 3) { unsigned l = (unsigned)sx_range(name, 0xE1, 0xEF); s += (char)l; s += (char)sx_range(name, 0x80, 0xBF); s += (char)sx_range(name, 0x80, 0xBF); }
    else { s += (char)sx_range(name, 0xF1, 0xF3); for (int q = 0; q < 3; q++) s += (char)sx_range(name, 0x80, 0xBF); } }
  return s;
}
