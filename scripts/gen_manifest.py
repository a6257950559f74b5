#!/usr/bin/env python3
# writes ../MANIFEST.json from jobs.py and properties.jsonl
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import jobs
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in jobs.PROPS:
        b = jobs.PROPS[i]["bounds"]
        b = b if isinstance(b, str) else "quick: %s; thorough: %s" % (b["quick"], b["thorough"])
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="bounded symbolic execution of the real code (clang LLVM IR -> C -> CBMC/SAT) against a reference specification; counterexamples replayed natively",
            level="model_checking",
            level_note="Every assertion is decided by the solver for all values within the bounds (unwinding assertions on, vacuity witnesses required). Bounds: %s. Trusts clang's IR, the ll2c translation (witnesses replayed against the native build on each run), CBMC and its SAT back end; outside the bounds nothing is claimed." % b))
na = [dict(property=i, reason=jobs.NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in jobs.PROPS]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo. See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
