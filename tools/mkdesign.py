#!/usr/bin/env python3
"""Regenerates the generated parts of DESIGN.md (per-property section, findings, seeded-bug table)."""
import json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import props
P = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
notes = {}
for blk in open(HERE + "/tools/notes.txt").read().split("\n\n"):
    if blk.strip(): k, v = blk.strip().split(" ", 1); notes[k] = " ".join(v.split())
out = []
for p in P:
    i = p["id"]; q = props.PROPS.get(i)
    out.append("### %s %s\n" % (i, p["title"]))
    if not q: out.append("Not applicable: %s\n" % props.NOT_APPLICABLE.get(i, "")); continue
    out.append("- Code encoded: " + ", ".join("`%s`" % a for a in p["anchors"]["files"]) + "; harness " + ", ".join("`harness/%s`" % h for h in q["harness"]) + ", entries " + ", ".join("`%s`" % j["entry"] for j in q["jobs"]) + ".")
    out.append("- Decided by: " + notes.get(i, "(see harness)"))
    out.append("- Bounds: " + q["bounds"] + ". %d quick jobs, %d more in thorough.\n" % (sum(len(j.get("quick", [])) for j in q["jobs"]), sum(len(j.get("thorough", [])) for j in q["jobs"])))
f = ["| property | commit | what failed |", "|---|---|---|"]
for k in json.load(open(HERE + "/known-findings.json")): f.append("| %s | %s | %s |" % (k["property"], k.get("commit", "(recorded, not repaired)"), k["what"]))
s = ["| seeded change | property | needs | caught by |", "|---|---|---|---|"]
res = {}
if os.path.exists(HERE + "/tools/seed_results.json"): res = json.load(open(HERE + "/tools/seed_results.json"))
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); s.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), res.get(n, "?")))
t = open(HERE + "/tools/DESIGN.in.md").read()
t = t.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@FINDINGS@@", "\n".join(f)).replace("@@SEEDED@@", "\n".join(s))
open(HERE + "/DESIGN.md", "w").write(t)
