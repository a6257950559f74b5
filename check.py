#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   -- see DESIGN.md"""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vfrun, jobs

def known_findings(prop):
    out = []
    p = os.path.join(vfrun.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: "):])
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    vfrun.ensure_tool()
    spec = jobs.PROPS[prop]
    js = spec["jobs"](tier)
    only = os.environ.get("VF_ONLY")
    if only:
        js = [j for j in js if only in j.key()]
    c = vfrun.Checker(prop, tier)
    try:
        try:
            c.run_jobs(js)
        except vfrun.Tool as x:
            print("ERROR:", x)
            return 2
        c.evidence(spec.get("assumptions", []) + jobs.COMMON_ASSUMPTIONS, spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"])
        for k in known_findings(prop):
            print("KNOWN-FINDING: " + k)
        for v in c.violations[:5]:
            print("counterexample in %s: %s" % (v["tag"], v["desc"]))
            print(v["text"])
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        if c.violations:
            return 1
        if c.errors:
            for e in c.errors[:20]:
                print("UNDECIDED:", e)
            return 2
        print("OK property=%s tier=%s queries=%d assertions=%d vccs=%d solver=%.1fs wall=%.1fs witnesses_replayed=%d" % (
            prop, tier, c.queries, c.asserts, c.vccs, c.solver_s, c.wall, c.witness_ok))
        return 0
    finally:
        c.close()

if __name__ == "__main__":
    sys.exit(main())
