#!/usr/bin/env python3
import json, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import props
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
na = props.NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "make -s -j8 -C engine OUT=$(pwd)/build", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
          "technique": "symbolic execution of the compiled LLVM IR of /repo's sources, assertions decided by z3 (bit-vectors)", "level": "model_checking",
          "level_note": "bounded: " + p["bounds"]})
    else: m["not_applicable"].append({"property": i, "reason": na.get(i, "not built yet")})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
