#include "sx.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <iterator>
#include <algorithm>
#include <numeric>
#include <string>
#include <string_view>
#include <vector>
#include <deque>
#include <list>
#include <forward_list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <queue>
#include <stack>
#include <bitset>
#include <array>
#include <tuple>
#include <optional>
#include <variant>
#include <any>
#include <memory>
#include <functional>
#include <utility>
#include <limits>
#include <cctype>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <charconv>
#include <stdexcept>
#include <system_error>
#include <type_traits>
#ifndef HARNESS
#define HARNESS(n) extern "C" void n()
#endif
#define CK(x) sx_check(x, #x)
HARNESS(h_iter) { std::istringstream is("a bc d\nxyz"); std::vector<std::string> v((std::istream_iterator<std::string>(is)), std::istream_iterator<std::string>()); CK(v.size() == 4 && v[3] == "xyz"); std::ostringstream o; std::copy(v.begin(), v.end(), std::ostream_iterator<std::string>(o, ",")); CK(o.str() == "a,bc,d,xyz,"); }
HARNESS(h_sbiter) { std::istringstream is("a bc\n"); std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); CK(s == "a bc\n"); std::ostringstream o; std::copy(s.begin(), s.end(), std::ostreambuf_iterator<char>(o)); CK(o.str() == s); }
HARNESS(h_fmt) { std::ostringstream o; o << std::setw(5) << 42 << '|' << std::left << std::setw(4) << "a" << '|' << std::right << std::setfill('0') << std::setw(3) << 7 << std::hex << std::showbase << 255 << std::oct << std::noshowbase << 8 << std::dec << std::uppercase << std::hex << 171; CK(o.str() == "   42|a   |0070xff10AB"); }
HARNESS(h_getline) { std::istringstream is("ab\n\ncd"); std::string l; int n = 0; while (std::getline(is, l)) n++; CK(n == 3 && l == "cd" && is.eof()); std::istringstream j("a;b"); std::getline(j, l, ';'); CK(l == "a"); }
HARNESS(h_quoted) { std::ostringstream o; o << std::quoted("a b"); CK(o.str() == "\"a b\""); }
HARNESS(h_move) { auto mk = [] { std::ostringstream o; o << 1; return o; }; std::ostringstream p = mk(); p << 2; CK(p.str() == "12"); std::istringstream q("7 8"); std::istringstream r(std::move(q)); int a, b; r >> a >> b; CK(a == 7 && b == 8); }
HARNESS(h_exc) { int r = 0; try { std::vector<int> v(3); v.at(5) = 1; } catch (std::out_of_range const &e) { r = 1; } try { std::stoi("x"); } catch (std::invalid_argument &) { r += 2; } try { throw std::runtime_error("boo"); } catch (std::exception &e) { r += std::string(e.what()) == "boo" ? 4 : 0; } CK(r == 7); std::istringstream is("x"); is.exceptions(std::ios::failbit); try { int i; is >> i; } catch (std::ios_base::failure &) { r = 9; } CK(r == 9); }
HARNESS(h_conv) { CK(std::to_string(-45) == "-45" && std::stoi("12") == 12 && std::stoul("77") == 77 && std::strtol("19x", nullptr, 10) == 19 && std::atoi("5") == 5); char b[20]; auto r = std::to_chars(b, b + 20, 1234); CK(std::string(b, r.ptr) == "1234"); int v = 0; std::from_chars(b, r.ptr, v); CK(v == 1234); }
HARNESS(h_printf) { char b[64]; int n = std::snprintf(b, sizeof b, "%d-%s-%u%c", -3, "ab", 7u, 'z'); CK(n == 8 && !strcmp(b, "-3-ab-7z")); n = std::sprintf(b, "%03d %x", 5, 255); CK(!strcmp(b, "005 ff")); }
HARNESS(h_cont) { std::deque<int> d; for (int i = 0; i < 200; i++) { d.push_back(i); d.push_front(-i); } CK(d.size() == 400 && d[0] == -199 && d.back() == 199); std::list<int> l{3, 1, 2}; l.sort(); l.reverse(); CK(l.front() == 3); l.splice(l.begin(), std::list<int>{9}); CK(l.front() == 9 && l.size() == 4); std::forward_list<int> f{1, 2}; f.push_front(0); CK(*f.begin() == 0); std::multimap<int, int> m{{1, 2}, {1, 3}}; CK(m.count(1) == 2); std::multiset<int> ms{1, 1, 2}; CK(ms.erase(1) == 2); }
HARNESS(h_hash) { std::unordered_map<std::string, int> m; for (int i = 0; i < 100; i++) m[std::to_string(i)] = i; CK(m.size() == 100 && m.at("57") == 57 && !m.count("x")); std::unordered_set<unsigned> s{1, 2, 2, 3}; s.erase(2); CK(s.size() == 2); std::unordered_multimap<int, int> u{{1, 1}, {1, 2}}; CK(u.count(1) == 2); m.reserve(1000); m.rehash(10); CK(m.at("99") == 99); }
HARNESS(h_queue) { std::priority_queue<int> p; for (int i : {3, 9, 1}) p.push(i); CK(p.top() == 9); std::queue<int> q; q.push(1); q.push(2); q.pop(); CK(q.front() == 2); std::stack<int> s; s.push(4); CK(s.top() == 4); }
HARNESS(h_bits) { std::bitset<70> b; b.set(65); b.flip(3); CK(b.count() == 2 && b.test(65) && b.any()); std::vector<bool> v(100); v[70] = true; v.flip(); CK(std::count(v.begin(), v.end(), true) == 99); CK(__builtin_popcount(255) == 8 && __builtin_clz(1) == 31 && __builtin_ctz(8) == 3); }
HARNESS(h_alg) { std::vector<int> v{5, 3, 9, 1, 7, 3, 8, 2, 6, 4, 0, 11, 15, 13, 12, 14, 10, 20, 19, 18}; auto w = v; std::sort(w.begin(), w.end()); CK(std::is_sorted(w.begin(), w.end())); w = v; std::stable_sort(w.begin(), w.end(), std::greater<int>()); CK(w[0] == 20); w = v; std::nth_element(w.begin(), w.begin() + 5, w.end()); CK(w[5] == 4); w = v; std::partial_sort(w.begin(), w.begin() + 3, w.end()); CK(w[2] == 2); w = v; std::make_heap(w.begin(), w.end()); std::sort_heap(w.begin(), w.end()); CK(w.back() == 20); w = v; std::rotate(w.begin(), w.begin() + 2, w.end()); CK(w[0] == 9); std::reverse(w.begin(), w.end()); w.erase(std::remove_if(w.begin(), w.end(), [](int i) { return i % 2; }), w.end()); w = v; std::stable_partition(w.begin(), w.end(), [](int i) { return i > 5; }); CK(w[0] == 9); w = v; std::inplace_merge(w.begin(), w.begin() + 1, w.end()); std::next_permutation(w.begin(), w.end()); CK(std::accumulate(v.begin(), v.end(), 0) == 180); std::vector<int> x(5); std::iota(x.begin(), x.end(), 1); CK(std::inner_product(x.begin(), x.end(), x.begin(), 0) == 55); std::partial_sum(x.begin(), x.end(), x.begin()); CK(x[4] == 15); CK(*std::max_element(v.begin(), v.end()) == 20 && std::minmax_element(v.begin(), v.end()).first - v.begin() == 10); CK(std::binary_search(x.begin(), x.end(), 6) && std::equal_range(x.begin(), x.end(), 3).second - x.begin() == 2); std::vector<int> a{1, 2, 3}, b{2, 3, 4}, c; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(c)); CK(c.size() == 2); c.clear(); std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(c)); CK(c.size() == 4); CK(std::search(v.begin(), v.end(), a.begin() + 0, a.begin() + 0) == v.begin() && std::adjacent_find(v.begin(), v.end()) == v.end() && std::mismatch(a.begin(), a.end(), b.begin()).first == a.begin() && std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end())); }
static int cmpi(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
HARNESS(h_c) { int v[] = {3, 1, 2}; qsort(v, 3, sizeof(int), cmpi); CK(v[0] == 1); int k = 2; CK(bsearch(&k, v, 3, sizeof(int), cmpi) == v + 1); char b[10]; strcpy(b, "abc"); strcat(b, "d"); CK(strlen(b) == 4 && strchr(b, 'c') == b + 2 && strrchr(b, 'a') == b && strstr(b, "bc") == b + 1 && strncmp(b, "abx", 2) == 0 && memchr(b, 'd', 4) == b + 3 && strspn(b, "ab") == 2 && strcspn(b, "c") == 2 && strpbrk(b, "xc") == b + 2); memmove(b + 1, b, 3); CK(b[1] == 'a'); memset(b, 'q', 3); CK(b[2] == 'q' && isdigit('3') && isspace('\n') && !isalpha('3') && toupper('a') == 'A' && isalnum('x') && ispunct('!') && isprint('a') && isupper('A')); CK(abs(-3) == 3 && std::div(7, 2).rem == 1); char *d = strdup("xy"); CK(!strcmp(d, "xy")); free(d); void *p = calloc(2, 4); CK(*(int *)p == 0); p = realloc(p, 100); free(p); }
HARNESS(h_math) { CK(std::floor(2.5) == 2 && std::ceil(2.5) == 3 && std::round(2.5) == 3 && std::sqrt(9.0) == 3 && std::fabs(-1.5) == 1.5 && std::pow(2.0, 3) == 8 && std::lround(2.6) == 3 && std::trunc(-2.5) == -2 && std::fmod(7.0, 4) == 3 && std::hypot(3.0, 4) == 5 && std::max(1., 2.) == 2); CK(std::gcd(12, 18) == 6 && std::lcm(4, 6) == 12 && std::clamp(5, 1, 3) == 3); }
HARNESS(h_types) { std::optional<int> o; CK(!o && o.value_or(3) == 3); o = 4; CK(*o == 4); std::variant<int, std::string> v = std::string("a"); CK(std::get<std::string>(v) == "a" && std::visit([](auto const &x) { return sizeof x; }, v) == sizeof(std::string)); auto [a, b] = std::make_tuple(1, 2); CK(a + b == 3); std::any x = 5; CK(std::any_cast<int>(x) == 5); std::function<int(int)> f = [o](int i) { return i + *o; }; CK(f(1) == 5); auto g = std::bind(f, std::placeholders::_1); CK(g(2) == 6); std::shared_ptr<int> s = std::make_shared<int>(3); std::weak_ptr<int> w = s; CK(s.use_count() == 1 && *w.lock() == 3); std::string_view sv = "abcd"; CK(sv.substr(1, 2) == "bc" && sv.find('c') == 2); std::reference_wrapper<int> r = *s; r.get() = 9; CK(*s == 9); std::array<int, 3> ar{}; ar.fill(2); CK(ar[2] == 2); }
HARNESS(h_str) { std::string s = "hello world"; CK(s.find("wor") == 6 && s.rfind('o') == 7 && s.find_first_of("xw") == 6 && s.find_last_not_of("d") == 9 && s.substr(2, 3) == "llo" && s.compare("hello") > 0); s.replace(0, 5, "bye"); CK(s == "bye world"); s.insert(3, "!"); s.erase(0, 1); s += 'x'; s.append(3, 'y'); s.pop_back(); s.resize(20, '.'); s.reserve(100); s.shrink_to_fit(); CK(s == "ye! worldxyy........"); s.assign("q"); s.push_back('r'); std::swap(s, s); CK(s == "qr" && s + "a" == "qra" && "a" + s == "aqr" && s.c_str()[2] == 0); std::string t(s.rbegin(), s.rend()); CK(t == "rq" && std::hash<std::string>()(t) == std::hash<std::string>()("rq")); }
HARNESS(h_io) { std::stringstream s; s << 1 << ' ' << 2u << ' ' << 'c' << " x"; int a; unsigned b; char c; std::string d; s >> a >> b >> c >> d; CK(a == 1 && b == 2 && c == 'c' && d == "x" && s.eof()); s.clear(); s.str("ff 10"); s >> std::hex >> a >> std::dec >> b; CK(a == 255 && b == 10); std::istringstream i("3.5"); double f; i >> f; CK(f == 3.5); }
HARNESS(h_io2) { std::istringstream i("abc def"); char b[4]; i.read(b, 3); CK(i.gcount() == 3); CK(i.peek() == ' ' && i.get() == ' '); i.unget(); i >> std::ws; CK(i.tellg() == 4); i.seekg(0); char c; i.get(c); CK(c == 'a'); i.ignore(100, ' '); i.getline(b, 4); CK(!strcmp(b, "def")); std::ostringstream o; o.write("xyz", 2).put('q').flush(); o.seekp(0); o << 'Z'; CK(o.str() == "Zyq"); o << std::endl << std::boolalpha << true << std::noboolalpha; }
HARNESS(h_time) { auto t = std::chrono::high_resolution_clock::now(); auto e = std::chrono::steady_clock::now(); (void)t; (void)e; (void)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - e).count(); CK(true); }
HARNESS(h_err) { try { throw std::system_error(std::make_error_code(std::errc::invalid_argument)); } catch (std::system_error const &e) { CK(e.code().value() == 22); } CK(std::string(strerror(2)).size() > 0); }
HARNESS(h_flt) { std::ostringstream o; o << 2.5 << ' ' << std::fixed << std::setprecision(2) << 1.0; CK(o.str() == "2.5 1.00"); }
struct Base { virtual ~Base() {} virtual int f() = 0; }; struct D1 : Base { int f() override { return 1; } }; struct D2 : Base { int f() override { return 2; } };
HARNESS(h_virt) { std::vector<std::unique_ptr<Base>> v; v.push_back(std::make_unique<D1>()); v.push_back(std::make_unique<D2>()); int s = 0; for (auto &p : v) s += p->f(); CK(s == 3); static int st = [] { return 5; }(); CK(st == 5); thread_local int tl = 3; tl++; CK(tl == 4); }
HARNESS(h_file) { FILE *f = std::fopen("nope", "r"); CK(!f); std::puts("x"); std::printf("%d\n", 3); std::fprintf(stderr, "e\n"); std::fputs("q", stdout); std::putchar('\n'); CK(true); }
HARNESS(h_ios) { std::istringstream i("5 x"); int a = 0; std::istream &r = i; if (!(r >> a)) CK(false); bool ok = static_cast<bool>(r >> a); CK(!ok && r.fail() && !r.bad() && a == 0); r.clear(); std::string s; CK(bool(r >> s) && s == "x"); std::ios_base::fmtflags f = r.flags(); r.flags(f | std::ios::hex); r.unsetf(std::ios::skipws); auto g = i.rdbuf(); CK(g->sgetc() == EOF); std::ostringstream o; auto *old = o.rdbuf(); std::ostream p(old); p << "z"; CK(o.str() == "z"); std::cout << i.rdbuf(); }
HARNESS(h_buf) { struct B : std::streambuf { std::string s; int_type overflow(int_type c) override { s += (char)c; return c; } std::streamsize xsputn(char const *p, std::streamsize n) override { s.append(p, n); return n; } } b; std::ostream o(&b); o << "ab" << 'c' << 12; CK(b.s == "abc12"); }
HARNESS(h_str2) { std::ostringstream o; o.str("abc"); o << "z"; CK(o.str() == "zbc"); o << "1234"; CK(o.str() == "z1234"); o.str(""); o << "q"; CK(o.str() == "q"); std::ostringstream p("ab", std::ios::ate); p << 1; CK(p.str() == "ab1"); std::stringstream s("x"); s << "yz"; std::string t; s >> t; CK(t == "yz"); }
HARNESS(h_hex) { std::ostringstream o; o << std::hex << -1 << ' ' << (short)-1 << ' ' << 255ul << std::showpos << std::dec << 5 << 6u; CK(o.str() == "ffffffff ffff ff+56"); std::istringstream i("0x1f 17 077"); int a, b, c; i >> std::hex >> a >> std::oct >> b; i.unsetf(std::ios::basefield); i >> c; CK(a == 31 && b == 15 && c == 63); std::istringstream j("09 0"); j >> a >> b; CK(a == 9 && b == 0); }
