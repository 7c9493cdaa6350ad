#include "engine.h"
#include <cstdio>
#include <unistd.h>
#include <thread>
#include <chrono>
#include <atomic>
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
template <class V> static std::string arr(const V &v) { std::string r = "["; bool f = true; for (auto x : v) { if (!f) r += ","; f = false; r += std::to_string(x); } return r + "]"; }
int main(int argc, char **argv) {
  Engine E; std::string ir, entry = "harness", out, dump; double tl = 600; unsigned zt = 60000, dumpMax = 40;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { if (i + 1 >= argc) { fprintf(stderr, "sx: missing value for %s\n", a.c_str()); exit(3); } return std::string(argv[++i]); };
    if (a == "--ir") ir = nx(); else if (a == "--entry") entry = nx(); else if (a == "--out") out = nx();
    else if (a == "--time") tl = atof(nx().c_str()); else if (a == "--max-steps") E.maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--solver-timeout") zt = atoi(nx().c_str());
    else if (a == "--dump") dump = nx(); else if (a == "--dump-max") dumpMax = atoi(nx().c_str()); else if (a == "--seed") E.sampleSeed = strtoull(nx().c_str(), 0, 10); else if (a == "--samples") E.maxSamples = atoi(nx().c_str());
    else if (a == "--max-viol") E.maxViol = strtoull(nx().c_str(), 0, 10); else if (a == "-v") E.verbose = true; else if (a == "--tree-limit") gTreeLimit = atoi(nx().c_str());
    else if (a == "--max-fork") E.maxForkValues = atoi(nx().c_str());
    else if (a == "--concrete") { E.concrete = true; std::string f = nx(); FILE *fp = fopen(f.c_str(), "r"); if (!fp) { fprintf(stderr, "sx: no %s\n", f.c_str()); return 3; } unsigned long long v; while (fscanf(fp, "%llu", &v) == 1) E.concreteInputs.push_back(v); fclose(fp); }
    else if (a == "-p") { std::string p = nx(); size_t e = p.find('='); E.params[p.substr(0, e)] = atoll(p.c_str() + e + 1); }
    else { fprintf(stderr, "sx: bad option %s\n", a.c_str()); return 3; }
  }
  double t0 = nowSec(); E.deadline = t0 + tl;
  solverInit(zt, dump.empty() ? nullptr : dump.c_str(), dumpMax);
  // The results, written at the end of the run or, when the solver does not come back (its own time limit does not cover all it
  // does), by a watchdog shortly after the time limit: a job always answers, if only to say what it left undecided.
  double tload = 0; static std::atomic<bool> finishing(false);
  auto finish = [&] {
    double wall = nowSec() - t0;
    std::string o = "{\n";
    o += "\"entry\":" + js(entry) + ",\"params\":{"; { bool f = true; for (auto &p : E.params) { if (!f) o += ","; f = false; o += js(p.first) + ":" + std::to_string(p.second); } } o += "},\n";
    o += "\"complete\":" + std::string(E.incomplete ? "false" : "true") + ",\"why\":" + js(E.incompleteWhy) + ",\n";
    o += "\"violations\":["; { bool f = true; for (auto &v : E.viols) { if (!f) o += ","; f = false; o += "{\"kind\":" + js(v.kind) + ",\"label\":" + js(v.label) + ",\"where\":" + js(v.where) + ",\"inputs\":" + arr(v.inputs) + ",\"names\":["; bool g = true; for (auto &n : v.names) { if (!g) o += ","; g = false; o += js(n); } o += "]}"; } } o += "],\n";
    o += "\"samples\":["; { bool f = true; for (auto &v : E.samples) { if (!f) o += ","; f = false; o += "{\"inputs\":" + arr(v.inputs) + ",\"trace\":" + arr(v.trace) + "}"; } } o += "],\n";
    o += "\"reached\":{"; { bool f = true; for (auto &v : E.reached) { if (!f) o += ","; f = false; o += js(v.first) + ":" + std::to_string(v.second); } } o += "},\n";
    o += "\"checks\":{"; { bool f = true; for (auto &v : E.checksPassed) { if (!f) o += ","; f = false; o += js(v.first) + ":" + std::to_string(v.second); } } o += "},\n";
    o += "\"functions\":["; { bool f = true; for (auto &v : E.funcs) if (v.second->calls && v.second->isRepo) { if (!f) o += ","; f = false; o += js(v.second->name); } } o += "],\n";
    char b[600]; snprintf(b, sizeof b, "\"stats\":{\"steps\":%llu,\"paths\":%llu,\"forks\":%llu,\"branches\":%llu,\"merges\":%llu,\"mergeFails\":%llu,\"deadAssume\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cacheHits\":%llu,\"modelHits\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"load_s\":%.3f,\"exprs\":%llu},\n",
      (unsigned long long)E.steps, (unsigned long long)E.paths, (unsigned long long)E.forks, (unsigned long long)E.branches, (unsigned long long)E.merges, (unsigned long long)E.mergeFails, (unsigned long long)E.deadAssume, (unsigned long long)gSolver.queries, (unsigned long long)gSolver.sat, (unsigned long long)gSolver.unsat, (unsigned long long)gSolver.unknown, (unsigned long long)gSolver.cacheHits, (unsigned long long)gSolver.modelHits, gSolver.seconds, wall, tload, (unsigned long long)gExprCount);
    o += b; o += "\"solver\":" + js(solverVersion()) + "\n}\n";
    if (out.empty()) fputs(o.c_str(), stdout); else { FILE *fp = fopen(out.c_str(), "w"); fputs(o.c_str(), fp); fclose(fp); }
    fflush(stdout); fflush(stderr);
    _exit(E.viols.empty() ? (E.incomplete ? 2 : 0) : 1);
  };
  std::thread([&] { double end = E.deadline; auto until = [&](double t) { while (nowSec() < t) std::this_thread::sleep_for(std::chrono::milliseconds(200)); };
    until(end + 3); solverInterrupt(); until(end + 15); if (finishing.exchange(true)) return;
    E.incomplete = true; E.incompleteWhy = "time limit, inside the solver"; finish(); }).detach();
  E.load(ir); tload = nowSec() - t0;
  E.run(entry);
  if (finishing.exchange(true)) for (;;) pause();
  finish();
}
