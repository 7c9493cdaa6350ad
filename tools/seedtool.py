#!/usr/bin/env python3
"""Plant bugs and validate them in scratch copies (bind-mounted over /repo in a private mount namespace, so /repo itself is never touched).
  seedtool.py make BATCH.py     write /verif/seeded/<id>/ from a batch description
  seedtool.py valid [ID...]     applies, builds, passes the tests, demo 0 clean / nonzero patched
  seedtool.py check [ID...]     run the property's quick check against the patched tree"""
import sys, os, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def copy(tag):
    d = "/tmp/seed/c-" + tag; shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/seed", exist_ok=True); sh("cp -a /repo " + d); return d
def inns(d, cmd, timeout=900): return sh("unshare -m bash -c 'mount --bind %s /repo && cd /repo && %s'" % (d, cmd), timeout=timeout)
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -fno-rtti -O1 -g -w -DNDEBUG %s-Isrc -I. "$D/demo.cpp" %s -o "$T/demo" || exit 3
cd "$T" && timeout 100 ./demo
'''
def make(batch):
    g = {}; exec(open(batch).read(), g)
    for s in g["SEEDS"]:
        d = copy("mk-" + s["id"]); bad = False
        for f, old, new in s["edits"]:
            p = d + "/" + f; t = open(p).read()
            if t.count(old) != 1: print(s["id"], "EDIT MATCHES", t.count(old), f, repr(old)[:60]); bad = True; continue
            open(p, "w").write(t.replace(old, new))
        o = S + "/" + s["id"]
        if not bad:
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(sh("git -C %s diff" % d).stdout)
            open(o + "/demo.sh", "w").write(s.get("demo_sh") or DEMO % ("-fsanitize=address,undefined " if s.get("asan") else "", " ".join(s.get("srcs", []))))
            os.chmod(o + "/demo.sh", 0o755)
            if "demo" in s: open(o + "/demo.cpp", "w").write(g.get("PRE", "") + s["demo"])
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
def valid(i):
    o = S + "/" + i; d = copy("v-" + i); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]; out = []
    try:
        demo = "/tmp/seed/demo-" + i; shutil.rmtree(demo, ignore_errors=True); os.makedirs(demo); sh("cp %s/demo* %s" % (o, demo))
        r = inns(d, "timeout 300 bash %s/demo.sh" % demo)
        if r.returncode: out.append("demo fails on clean tree: %d %s" % (r.returncode, r.stdout[-1500:]))
        r = sh("git -C %s apply %s/patch.diff" % (d, o))
        if r.returncode: return i, ["patch does not apply " + r.stdout]
        j = "/tmp/seed/%s.json" % i
        r = inns(d, "bash /opt/vp/test.sh " + j)
        res = json.load(open(j)); miss = [t for t in base if t not in res["passed"]]
        if miss: out.append("tests fail: %s %s" % (miss, r.stdout[-300:] if not res["passed"] else ""))
        r = inns(d, "timeout 300 bash %s/demo.sh" % demo)
        if r.returncode == 0: out.append("demo passes on patched tree")
        elif r.returncode == 3: out.append("demo does not compile on patched tree " + r.stdout[-800:])
    finally: shutil.rmtree(d, ignore_errors=True)
    return i, out
def check(i, tier="quick"):
    import time
    o = S + "/" + i; d = copy("k-" + i); p = json.load(open(o + "/meta.json"))["property"]
    w = "/tmp/seed/v-" + i; shutil.rmtree(w, ignore_errors=True); sh("mkdir -p %s && cd %s && cp -a check.py props.py engine harness model known-findings.json %s/ && mkdir -p %s/build && cp -a build/sx build/*.o build/cache build/natinc %s/build/" % (w, V, w, w, w))
    t = time.time()
    try:
        sh("git -C %s apply %s/patch.diff" % (d, o))
        r = inns(d, "cd %s && python3-vt check.py %s %s" % (w, p, tier), timeout=1800)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
        return i, p, r.returncode, bool(v), time.time() - t, r.stdout[-600:]
    finally: shutil.rmtree(d, ignore_errors=True); shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(S))
    if sys.argv[1] == "make": make(sys.argv[2])
    elif sys.argv[1] == "valid":
        with ThreadPoolExecutor(4) as ex:
            for i, o in ex.map(valid, ids): print(i, "OK" if not o else "BAD " + " | ".join(o), flush=True)
    else:
        for i in ids:
            i, p, rc, v, t, tail = check(i); print("%-28s %s rc=%d %s %.0fs" % (i, p, rc, "CAUGHT" if rc == 1 and v else "MISSED", t), flush=True)
            if rc not in (0, 1): print(tail)
