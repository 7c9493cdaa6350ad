#!/usr/bin/env python3
"""Driver: check.py <property> [quick|thorough] [--only ENTRY] [--keep]

Regenerates the encoding (LLVM IR) of /repo's current sources together with the property's harness, has the
symbolic engine decide every assertion for all inputs within the stated bounds, replays counterexamples on natively
compiled code, and validates sampled paths against it."""
import sys, os, json, time, subprocess, hashlib, shutil, tempfile, itertools, random, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
CLANG = "/usr/bin/clang++-18"
CORES = os.cpu_count() or 4

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
class Broken(Exception): pass
def die(msg):
    raise Broken(msg)

# ------------------------------------------------------------------ engine
def build_engine():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j8", "-C", os.path.join(HERE, "engine"), "OUT=" + BUILD])
        if r.returncode: die("engine build failed:\n" + r.stderr[-3000:])
    return os.path.join(BUILD, "sx")

# ------------------------------------------------------------------ compiling (content-addressed cache, so a stale object is never used)
def preprocess_key(cmd, src):
    r = sh(cmd + ["-E", "-P", "-o", "-", src])
    if r.returncode: die("preprocessing %s failed:\n%s" % (src, r.stderr[-3000:]))
    return hashlib.sha256((" ".join(cmd) + "\0" + r.stdout).encode()).hexdigest()[:32]
def compile_one(args):
    cmd, src, ext = args
    key = preprocess_key(cmd, src)
    out = os.path.join(BUILD, "cache", key + ext)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid() + str(random.random())
        r = sh(cmd + ["-c", "-o", tmp, src])
        if r.returncode: die("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
        os.replace(tmp, out)
    return out
IRFLAGS = [CLANG, "-std=c++17", "-O1", "-emit-llvm", "-fno-rtti", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-strict-aliasing",
           "-DNDEBUG", "-DSX_MODEL", "-w", "-Xclang", "-fcxx-exceptions", "-fexceptions", "-mno-sse3", "-fno-builtin-strlen", "-ffp-contract=off", "-fno-pie", "-fno-PIC"]
def ir_cmd(): return IRFLAGS + ["-I" + os.path.join(HERE, "model/include"), "-I" + os.path.join(REPO, "src"), "-I" + REPO]
NAT = {
  "asan": [CLANG, "-std=c++17", "-O1", "-g1", "-fno-rtti", "-DNDEBUG", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,signed-integer-overflow,shift,nonnull-attribute", "-fno-omit-frame-pointer"],
  "gcc": ["g++", "-std=c++17", "-O3", "-g1", "-fno-rtti", "-DNDEBUG", "-w"],
  "vg": [CLANG, "-std=c++17", "-O1", "-g1", "-fno-rtti", "-DNDEBUG", "-w", "-DSX_NEW"],
}
def nat_cmd(kind):
    d = os.path.join(BUILD, "natinc"); os.makedirs(d, exist_ok=True)
    for h in ("sx.h", "sxio.hpp"):
        s = open(os.path.join(HERE, "model/include", h)).read(); p = os.path.join(d, h)
        if not os.path.exists(p) or open(p).read() != s:
            t = p + ".%d" % os.getpid(); open(t, "w").write(s); os.replace(t, p)
    return NAT[kind] + ["-I" + d, "-I" + os.path.join(REPO, "src"), "-I" + REPO]

def jamroot_sources():
    """The library sources of the build, from Jamroot (plus any new .cpp beside them)."""
    txt = open(os.path.join(REPO, "Jamroot")).read()
    m = re.search(r"create_ppocr_rule\n(.*?);", txt, re.S)
    return [s for s in m.group(1).split() if s.endswith(".cpp")]
def undefined_repo(objs_ir):
    return []
class Builder:
    """Builds one harness in encoded and native form."""
    def __init__(self, harness, sources, defines=(), flags=()):
        self.flags = list(flags)
        self.h = os.path.join(HERE, "harness", harness); self.sources = sources; self.defs = ["-D" + d for d in defines]
    def srcs(self, full):
        own = [s for s in self.sources if s.startswith("harness/")]  # wrappers around the command-line tools
        return [os.path.join(REPO, s) for s in (jamroot_sources() if full else self.sources) if s not in own] + [os.path.join(HERE, s) for s in own]
    def ir(self, tmp):
        for full in (False, True):
            with ThreadPoolExecutor(CORES) as ex:
                js = [(ir_cmd() + self.flags, s, ".bc") for s in self.srcs(full)] + [(ir_cmd() + self.flags + self.defs, self.h, ".bc"), (ir_cmd() + ["-fno-builtin"], os.path.join(HERE, "model/runtime.cpp"), ".bc")]
                objs = list(ex.map(compile_one, js))
            out = os.path.join(tmp, "all.bc")
            r = sh(["llvm-link-18", "-o", out] + objs)
            if r.returncode: die("llvm-link failed: " + r.stderr[-2000:])
            n = sh(["llvm-nm-18", "-u", out]); und = [l.split()[-1] for l in n.stdout.splitlines() if "ppocr" in l]
            if not und or full: break
        keep = os.path.join(tmp, "opt.bc")
        ents = ",".join(self.entries() + ["sx_exc_vtable"])
        r = sh(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ents, "-o", keep, out])
        if r.returncode: die("opt failed: " + r.stderr[-2000:])
        self.full = full
        return keep
    def entries(self):
        return re.findall(r'^\s*(?:extern "C" )?(?:HARNESS|void)\s*\(?\s*(h_\w+)', open(self.h).read(), re.M)
    def native(self, kind, tmp, entry, full):
        c = nat_cmd(kind) + self.flags
        js = [(c, s, "." + kind + ".o") for s in self.srcs(full)] + [(c + self.defs, self.h, "." + kind + ".o"), (c + ["-Dharness=" + entry], os.path.join(HERE, "model/native.cpp"), "." + kind + ".o")]
        with ThreadPoolExecutor(CORES) as ex: objs = list(ex.map(compile_one, js))
        out = os.path.join(tmp, "nat-%s-%s" % (kind, entry))
        if os.path.exists(out): return out
        link = [c[0]] + [f for f in c if f.startswith("-fsanitize")] + ["-g1", "-Wl,--wrap=open,--wrap=close,--wrap=read,--wrap=fstat", "-o", out] + objs
        r = sh(link)
        if r.returncode: die("native link failed: " + r.stderr[-3000:])
        return out

def run_native(binp, inputs, params, tmp, trace=False, valgrind=False, timeout=90):
    d = tempfile.mkdtemp(dir=tmp); inf = os.path.join(d, "inputs"); trf = os.path.join(d, "trace"); cwd = os.path.join(d, "cwd"); os.mkdir(cwd)
    open(inf, "w").write("\n".join(map(str, inputs)) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:max_allocation_size_mb=9000:allocator_may_return_null=0:detect_stack_use_after_return=1", UBSAN_OPTIONS="exitcode=99:halt_on_error=1:print_stacktrace=1")
    cmd = ([ "valgrind", "-q", "--error-exitcode=99"] if valgrind else []) + [binp, inf, trf if trace else "-", cwd] + ["%s=%d" % kv for kv in params.items()]
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
        resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, 256 << 20))
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, preexec_fn=lim)
        rc, err = r.returncode, r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired: rc, err = -14, "timeout"
    tr = [int(x) for x in open(trf).read().split()] if trace and os.path.exists(trf) else []
    shutil.rmtree(d, ignore_errors=True)
    return rc, err, tr

def known_findings():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]; prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = next((x.split("=")[1] for x in sys.argv if x.startswith("--only=")), None); verbose = "--verbose" in sys.argv; maxjobs = next((int(x.split("=")[1]) for x in sys.argv if x.startswith("--jobs=")), None)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import props
    P = props.PROPS[prop]
    t0 = time.time(); os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="sx-%s-" % prop)
    try: rc = check(prop, P, tier, seed, only, verbose, tmp, t0, maxjobs)
    except Broken as e:
        print("CHECK-ERROR property=%s %s" % (prop, e)); rc = 3
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)

def check(prop, P, tier, seed, only, verbose, tmp, t0, maxjobs):
    with ThreadPoolExecutor(2) as ex:
        fe = ex.submit(build_engine)
        builders = {}
        for h, spec in P["harness"].items():
            b = Builder(h, spec["sources"], spec.get("defines", ()), spec.get("flags", ())); builders[h] = b
            d = os.path.join(tmp, h.replace(".", "_")); os.mkdir(d); b.dir = d; b.irfile = b.ir(d)
        sx = fe.result()
    # ---- jobs
    budget = float(os.environ.get("SX_BUDGET", P.get("budget", {}).get(tier, 150 if tier == "quick" else 700)))
    jobs = []
    for j in P["jobs"]:
        for t in ("quick", "thorough"):
            if t == "thorough" and tier == "quick": continue
            for prm in j.get(t, []):
                if only and j["entry"] != only: continue
                jobs.append(dict(h=j["harness"], entry=j["entry"], params=prm, core=(t == "quick"), opts=j.get("opts", []), expect=j.get("checks")))
    if maxjobs: jobs = jobs[:maxjobs]
    start = time.time()
    def run(ij):
        i, j = ij
        left = budget - (time.time() - start)
        if not j["core"] and left < 5: j["skipped"] = True; return j
        out = os.path.join(tmp, "job%d.json" % i)
        cmd = [sx, "--ir", builders[j["h"]].irfile, "--entry", j["entry"], "--out", out, "--seed", str(seed + i), "--time", str(max(left, 60) if j["core"] else left)] + j["opts"]
        for k, v in j["params"].items(): cmd += ["-p", "%s=%d" % (k, v)]
        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)); resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        t = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim)
        j["rc"] = r.returncode; j["wall"] = time.time() - t; j["err"] = r.stderr.decode(errors="replace")[-1500:]
        if os.path.exists(out): j["res"] = json.load(open(out))
        if verbose:
            s = j.get("res", {}).get("stats", {})
            print("  job %s %s rc=%d %.1fs paths=%s queries=%s solver=%s %s" % (j["entry"], j["params"], j["rc"], j["wall"], s.get("paths"), s.get("queries"), s.get("solver_s"), j.get("res", {}).get("why", "") + j["err"][-300:]), flush=True)
        return j
    with ThreadPoolExecutor(CORES) as ex: jobs = list(ex.map(run, enumerate(jobs)))
    errors, viols, notes, known = [], [], [], []
    tot = dict(steps=0, paths=0, forks=0, queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, cacheHits=0, modelHits=0, branches=0, merges=0)
    checks, reached, funcs, samples, solver = {}, {}, set(), [], ""
    complete = incomplete = skipped = 0
    for j in jobs:
        if j.get("skipped"): skipped += 1; continue
        if "res" not in j: errors.append("%s %s: engine exit %d: %s" % (j["entry"], j["params"], j["rc"], j["err"][-600:])); continue
        r = j["res"]; solver = r["solver"]
        for k in tot: tot[k] += r["stats"][k]
        for k, v in r["checks"].items(): checks[k] = checks.get(k, 0) + v
        for k, v in r["reached"].items(): reached[k] = reached.get(k, 0) + v
        funcs |= set(r["functions"])
        for s in r["samples"]: samples.append((j, s))
        for v in r["violations"]: viols.append((j, v))
        if r["complete"]: complete += 1
        else: incomplete += 1; notes.append("%s %s incomplete: %s" % (j["entry"], j["params"], r["why"]))
    # ---- native replay of counterexamples
    nat = {}
    def natbin(kind, j):
        k = (kind, j["h"], j["entry"])
        if k not in nat: nat[k] = builders[j["h"]].native(kind, tmp, j["entry"], builders[j["h"]].full)
        return nat[k]
    confirmed, unconfirmed = [], []; seen = set(); kf = [k for k in known_findings() if k["property"] == prop and k["status"] == "known"]
    per_sig = {}
    for j, v in viols:
        sig = (j["entry"], v["kind"], v["label"], v["where"].split(" < ")[0])
        per_sig[sig] = per_sig.get(sig, 0) + 1
        if per_sig[sig] > 3 or len(confirmed) >= 12: continue
        if time.time() - t0 > 240 and any(not any(k["entry"] == r["entry"] and k["kind"] == r["kind"] and k["label"] == r["label"] and k["where"] in r["where"] for k in kf) for r in confirmed): continue   # enough to report
        ok, how = replay(j, v, natbin, tmp)
        rec = dict(property=prop, entry=j["entry"], harness=j["h"], params=j["params"], kind=v["kind"], label=v["label"], where=v["where"], inputs=v["inputs"], input_names=v["names"], native=how)
        (confirmed if ok else unconfirmed).append(rec)
    rc = 0; nviol = 0
    for i, rec in enumerate(confirmed):
        hit = None
        for k in kf:
            if k["entry"] == rec["entry"] and k["kind"] == rec["kind"] and k["label"] == rec["label"] and k["where"] in rec["where"]: hit = k
        if hit:
            known.append(hit["what"]); continue
        nviol += 1
        p = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (prop, nviol)); json.dump(rec, open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, p)); rc = 1
        print("  %s: %s | %s\n  at %s\n  inputs %s (%s)\n  native: %s" % (rec["kind"], rec["label"], rec["entry"], rec["where"][:300], rec["inputs"][:40], ",".join(rec["input_names"][:40]), rec["native"][:300]))
    for w in sorted(set(known)): print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for rec in unconfirmed: errors.append("counterexample not reproduced natively: %s %s at %s inputs %s params %s (%s)" % (rec["kind"], rec["label"], rec["where"][:200], rec["inputs"], rec["params"], rec["native"][:300]))
    # ---- validation of sampled paths against the native build
    validated = 0; rnd = random.Random(seed); want = P.get("validate", 40 if tier == "quick" else 150)
    if rc == 0 and not errors:
        groups = {}
        for j, s in samples: groups.setdefault((j["h"], j["entry"]), []).append((j, s))
        pick = []
        for g in groups.values(): rnd.shuffle(g)
        while groups and len(pick) < want:
            for k in list(groups):
                if groups[k] and len(pick) < want: pick.append(groups[k].pop())
                if not groups[k]: del groups[k]
        for j, s in pick: natbin("asan", j)
        def val(js):
            j, s = js; rc2, err, tr = run_native(natbin("asan", j), s["inputs"], j["params"], tmp, trace=True); return j, s, rc2, err, tr
        with ThreadPoolExecutor(CORES) as ex:
            for j, s, rc2, err, tr in ex.map(val, pick):
                if rc2 != 0 or tr != s["trace"]: errors.append("path does not agree with the native run: %s %s inputs %s: exit %d trace %s vs %s %s" % (j["entry"], j["params"], s["inputs"], rc2, tr[:40], s["trace"][:40], err[-500:]))
                else: validated += 1
    # ---- vacuity
    want_labels = set(P.get("labels", []))
    if not only and not maxjobs and rc == 0:
        src = "".join(open(builders[h].h).read() for h in builders)
        labels = set(re.findall(r'sx_(?:check|check_init)\s*\([^;]*?"([^"]+)"\s*\)\s*;', src)) if not want_labels else want_labels
        labels = {l for l in labels if not l.startswith("?")}
        missing = sorted(l for l in labels if l not in checks)
        rl = set(re.findall(r'sx_reach\s*\(\s*"([^"]+)"', src)); missr = sorted(l for l in rl if l not in reached and not want_labels)
        if missing: (errors if not incomplete else notes).append("assertions never reached: " + ", ".join(missing))
        if missr: (errors if not incomplete else notes).append("witnesses never reached: " + ", ".join(missr))
        if not checks: errors.append("no assertion was decided")
    dem = demangle(sorted(funcs))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=nviol,
      coverage=dict(states=tot["paths"] + tot["forks"], transitions=tot["steps"], traces_validated_against_impl=validated,
        samples=[dict(entry=j["entry"], params=j["params"], inputs=s["inputs"][:60], observed=s["trace"][:30]) for j, s in rnd.sample(samples, min(6, len(samples)))],
        paths_completed=tot["paths"], branch_decisions=tot["branches"], state_merges=tot["merges"], jobs_complete=complete, jobs_incomplete=incomplete, jobs_skipped_for_time=skipped,
        queries_discharged=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], query_cache_hits=tot["cacheHits"], answered_by_known_model=tot["modelHits"], solver=solver, solver_seconds=round(tot["solver_s"], 2),
        functions_encoded=dem, assertions={k: checks[k] for k in sorted(checks)}, witnesses={k: reached[k] for k in sorted(reached)},
        bounds=P["bounds"], jobs=[dict(entry=j["entry"], params=j["params"], wall_s=round(j.get("wall", 0), 2), complete=bool(j.get("res", {}).get("complete"))) for j in jobs if not j.get("skipped")][:400], notes=notes, errors=errors,
        explanation="Each job executes the compiled IR of the listed functions symbolically; every input named in a sample is a solver variable over its whole range; each assertion and each memory access is decided by z3 for all values within the bounds."),
      assumptions=P.get("assumptions", []) + props_common())
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for n in notes: print("note: " + n)
    print("%s %s: %d jobs (%d complete), %d paths, %d assertions labels, %d queries, solver %.1fs, %d traces validated, %.1fs" % (prop, tier, len(jobs), complete, tot["paths"], len(checks), tot["queries"], tot["solver_s"], validated, time.time() - t0))
    if rc == 0 and errors:
        for e in errors[:12]: print("CHECK-ERROR property=%s %s" % (prop, e))
        rc = 3
    return rc
def props_common():
    return ["memory model: every object separate, 64 MB allocation limit, allocation below it never fails", "iostreams, libc and std exception classes are modelled (checked against the real libraries by trace validation)", "clang -O1 IR of the sources; gcc -O3 release code generation is not itself encoded"]
def demangle(names):
    r = sh(["c++filt"], input="\n".join(names)) if names else None
    return r.stdout.split("\n")[:len(names)] if r else []
def replay(j, v, natbin, tmp):
    rc, err, _ = run_native(natbin("asan", j), v["inputs"], j["params"], tmp)
    first = next((l for l in err.splitlines() if "SX CHECK" in l or "ERROR" in l or "runtime error" in l or "terminate" in l or "what()" in l), err[-200:])
    if rc == 77: return True, first
    if rc == 99: return True, first
    if rc in (-6, -11, -8, -4, 134, 139): return True, "signal %d %s" % (rc, first)
    if rc == -14: return True, "did not terminate"
    if rc == 78 and v["kind"] != "uninitialised": return False, "inputs rejected natively: " + first
    if v["kind"] in ("uninitialised", "memory-read", "memory-write", "invalid-free"):
        rc, err, _ = run_native(natbin("vg", j), v["inputs"], j["params"], tmp, valgrind=True)
        first = " / ".join(l for l in err.splitlines()[:6])
        if rc == 99: return True, "valgrind: " + first
        if rc == 77: return True, first
        if rc in (-6, -11, -8): return True, "signal %d" % rc
    rc, err, _ = run_native(natbin("gcc", j), v["inputs"], j["params"], tmp)
    if rc in (77, -6, -11, -8, -14): return True, "gcc -O3 build: exit %d %s" % (rc, err[-200:])
    return False, "native exit %d %s" % (rc, first)
if __name__ == "__main__": main()
