#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks = []
for p in props:
    i = p["id"]
    if os.path.exists("%s/h/%s/src/lib.rs" % (V, i.lower())):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": "symbolic execution of the compiled code (LLVM IR) with z3, every path within bounds, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "All feasible paths of the real yaserde, the code its derive macros generate for the harness types, and xml-rs are explored over symbolic bytes, shapes and faults within the bounds in h/%s and DESIGN.md; every branch and assertion is decided by z3 for all values. Trusted: rustc, the engine symx (sampled paths are replayed on the native build and must agree), z3." % i.lower()})
    else:
        NA[i] = "harness not built yet"
json.dump({"version": 1, "setup_cmd": "make -j4 -C symx OUT=../build/symx", "checks": checks,
  "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
  "notes": "No hooks: the public interface of yaserde is enough. Known findings: known_findings.txt."}, open(V + "/MANIFEST.json", "w"), indent=1)
