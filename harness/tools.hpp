#pragma once
#include "common.hpp"
#include <vector>
#include <string>
extern "C" { int tool_normalize_glyphs(int, char **); int tool_write_glyphs(int, char **); int tool_write_datas(int, char **); int tool_ocr2_extract_text(int, char **); int tool_make_trie_dictionary(int, char **); int tool_show_glyphs(int, char **); }
std::string sx_cout_take(); std::string sx_cerr_take();
struct Run { int code; bool thrown; std::string out, err; };
// runs a tool on virtual files
inline Run run(int (*tool)(int, char **), std::vector<std::string> args) { args.insert(args.begin(), "tool"); std::vector<char *> av; for (auto &a : args) av.push_back(&a[0]); av.push_back(nullptr); Run r{0, false, "", ""}; sx_cout_take(); sx_cerr_take(); try { r.code = tool((int)args.size(), av.data()); } catch (...) { r.thrown = true; } r.out = sx_cout_take(); r.err = sx_cerr_take(); return r; }
inline void put(const char *name, std::string const &s) { sx_vfs_put(name, s.data(), s.size()); }
