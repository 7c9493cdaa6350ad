// Native side of the harness interface: inputs come from a replay file, outcomes go to the exit status.
//   exit 0: ran to completion   77: a check failed   78: inputs outside the assumptions   other: crash / sanitizer
#include "include/sx.h"
#include "include/sxio.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <csignal>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
static std::vector<unsigned long long> in; static size_t ip; static std::map<std::string, unsigned long long> par; static FILE *tr;
extern "C" ssize_t __real_read(int, void *, size_t);
struct ToStdout : std::streambuf { int overflow(int c) override { return c == -1 ? 0 : fputc(c, stdout); } std::streamsize xsputn(const char *p, std::streamsize n) override { return (std::streamsize)fwrite(p, 1, (size_t)n, stdout); } }; static ToStdout coutb;
struct ToStderr : std::streambuf { int overflow(int c) override { return c == -1 ? 0 : fputc(c, stderr); } std::streamsize xsputn(const char *p, std::streamsize n) override { return (std::streamsize)fwrite(p, 1, (size_t)n, stderr); } }; static ToStderr cerrb; static FILE *diag = stderr; static int errfd = -1; static int outfd = -1; // what is printed, by whatever means, goes to one scratch file
static std::istringstream cinb;
static void done(int c) { if (tr) fclose(tr); tr = nullptr; fflush(diag); _exit(c); }
static std::string take(int fd) { std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t k; while ((k = __real_read(fd, b, sizeof b)) > 0) s.append(b, (size_t)k); if (ftruncate(fd, 0)) abort(); lseek(fd, 0, SEEK_SET); return s; }
std::string sx_cout_take() { fflush(stdout); return take(outfd); }
std::string sx_cerr_take() { fflush(stderr); return take(errfd); }
// what an aborting program said still reaches the caller
static void onAbort(int) { std::string s = take(errfd); if (write(2, s.data(), s.size()) < 0) _exit(70); signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
void sx_cin_set(const std::string &s) { cinb.clear(); cinb.str(s); std::cin.rdbuf(cinb.rdbuf()); std::cin.clear(); }
static size_t LIM = 64ul << 20; static long heapLive; static int vshort, vfail[3]; static unsigned long vtrunc;
extern "C" {
uint64_t sx_range(const char *n, uint64_t lo, uint64_t hi) { uint64_t v = ip < in.size() ? in[ip] : lo; ip++; if (v < lo || v > hi) { fprintf(diag, "SX infeasible input %s=%llu\n", n, (unsigned long long)v); done(78); } return v; }
uint64_t sx_choice(const char *n, uint64_t lo, uint64_t hi) { return sx_range(n, lo, hi); }
void sx_assume(bool c) { if (!c) { fprintf(diag, "SX assumption false\n"); done(78); } }
void sx_check(bool c, const char *l) { if (!c) { fprintf(diag, "SX CHECK FAILED: %s\n", l); done(77); } }
void sx_fail(const char *l) { fprintf(diag, "SX CHECK FAILED: %s\n", l); done(77); }
void sx_reach(const char *) {} uint64_t sx_param(const char *n, uint64_t d) { auto it = par.find(n); return it == par.end() ? d : it->second; }
void sx_observe(uint64_t v) { if (tr) fprintf(tr, "%llu\n", (unsigned long long)v); }
uint64_t sx_conc(uint64_t v) { return v; } bool sx_fork(bool c) { return c; } int sx_merge(int) { return 0; } uint64_t sx_heap_live() { return (uint64_t)heapLive; }
void sx_alloc_limit(uint64_t b) { LIM = b; } bool sx_is_symbolic(uint64_t) { return false; } void sx_stop() { done(0); } bool sx_is_native() { return true; } void sx_dump(const char *w, uint64_t v) { fprintf(diag, "%s = %llu\n", w, (unsigned long long)v); }
void sx_check_init(const void *p, size_t n, const char *l) { volatile unsigned x = 0; for (size_t i = 0; i < n; i++) { if (((const unsigned char *)p)[i] & 1) x = x + 1; } (void)l; }
void sx_vfs_put(const char *name, const char *d, unsigned long n) { FILE *f = fopen(name, "wb"); if (!f) { fprintf(diag, "%s: cannot write\n", name); done(70); } if (n) fwrite(d, 1, n, f); fclose(f); }
const char *sx_vfs_find(const char *name, unsigned long *len) { FILE *f = fopen(name, "rb"); if (!f) return nullptr; std::string s; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); char *d = (char *)malloc(s.size() + 1); memcpy(d, s.data(), s.size()); *len = s.size(); return d; }
void sx_vfs_short_reads(int m) { vshort = m; } void sx_vfs_truncate(unsigned long b) { vtrunc = b; } void sx_vfs_fail(int w, int on) { vfail[w] = on; }
int __real_open(const char *, int, ...); int __real_close(int); ssize_t __real_read(int, void *, size_t); int __real_fstat(int, struct stat *);
static int fds; static std::map<int, unsigned long> cut;
int sx_open_fds() { return fds; }
int __wrap_open(const char *n, int f, ...) { if (vfail[0]) { errno = 5; return -1; } int r = __real_open(n, f, 0666); if (r >= 0) { fds++; cut.erase(r); } return r; }
int __wrap_close(int fd) { int r = __real_close(fd); if (!r) fds--; return r; }
int __wrap_fstat(int fd, struct stat *st) { if (vfail[1]) { errno = 5; return -1; } int r = __real_fstat(fd, st); if (!r && vtrunc) { cut[fd] = (unsigned long)st->st_size - vtrunc; vtrunc = 0; } return r; }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (vfail[2]) { errno = 5; return -1; }
  struct stat st; __real_fstat(fd, &st); unsigned long len = cut.count(fd) ? cut[fd] : (unsigned long)st.st_size, at = (unsigned long)lseek(fd, 0, SEEK_CUR), left = at < len ? len - at : 0; unsigned long k = n < left ? n : left;
  if (vshort && k > 1) k = sx_range("short-read", 1, k);
  ssize_t r = k ? __real_read(fd, b, k) : 0; return r; }
void harness();
}
#ifdef SX_NEW

static void *al(size_t n, bool arr) { if (n > LIM) throw std::bad_alloc(); size_t *p = (size_t *)malloc(n + 16); p[0] = n; p[1] = arr ? 0xa55a : 0x5aa5; heapLive++; return p + 2; }
static void fr(void *q, bool arr) { if (!q) return; size_t *p = (size_t *)q - 2; if (p[1] != (arr ? 0xa55aul : 0x5aa5ul)) { fprintf(diag, "SX CHECK FAILED: mismatched or repeated deallocation\n"); done(77); } p[1] = 0xdead; heapLive--; free(p); }
void *operator new(size_t n) { return al(n, false); } void *operator new[](size_t n) { return al(n, true); }
void operator delete(void *p) noexcept { fr(p, false); } void operator delete[](void *p) noexcept { fr(p, true); } void operator delete(void *p, size_t) noexcept { fr(p, false); } void operator delete[](void *p, size_t) noexcept { fr(p, true); }
#else
 // the encoding's allocation limit
static void *al(size_t n) { if (n > LIM) throw std::bad_alloc(); return malloc(n ? n : 1); }
void *operator new(size_t n) { return al(n); } void *operator new[](size_t n) { return al(n); }
void operator delete(void *p) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); } void operator delete(void *p, size_t) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
int main(int argc, char **argv) { // usage: prog inputs trace dir [k=v...]
  if (argc < 4) return 3;
  FILE *f = fopen(argv[1], "r"); if (!f) return 3; unsigned long long v; while (fscanf(f, "%llu", &v) == 1) in.push_back(v); fclose(f);
  if (strcmp(argv[2], "-")) tr = fopen(argv[2], "w");
  for (int i = 4; i < argc; i++) { char *e = strchr(argv[i], '='); if (e) par[std::string(argv[i], (size_t)(e - argv[i]))] = strtoull(e + 1, 0, 10); }
  if (chdir(argv[3])) return 3;
  std::ios::sync_with_stdio(false); outfd = memfd_create("out", 0); if (outfd < 0 || dup2(outfd, 1) < 0) return 3;
  std::cout.rdbuf(&coutb); std::cerr.rdbuf(&cerrb); std::clog.rdbuf(&cerrb);
  errfd = memfd_create("err", 0); diag = stderr; stderr = fdopen(errfd, "w"); if (!stderr) return 3; setvbuf(stderr, nullptr, _IONBF, 0); signal(SIGABRT, onAbort);
  alarm(60);
  harness();
  done(0);
}
