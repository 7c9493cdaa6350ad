#pragma once
#include <string>
std::string sx_cout_take(); std::string sx_cerr_take(); void sx_cin_set(const std::string &);
extern "C" int sx_open_fds();
