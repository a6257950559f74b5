"""Solver-based checking of c4core: harness + real sources -> LLVM IR -> C -> CBMC.

Everything is regenerated from /repo on each run.  See DESIGN.md.
"""
import os, sys, json, subprocess, tempfile, shutil, time, re, resource, itertools, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
LL2C = os.path.join(VERIF, "build", "ll2c")
HARN = os.path.join(VERIF, "harness")
NCORE = int(os.environ.get("VF_JOBS", "8"))

SAN = "signed-integer-overflow,shift-exponent,integer-divide-by-zero,bounds,return,unreachable"
CXX = ["-std=c++17", "-DC4_NO_DEBUG_BREAK", "-I" + REPO + "/src", "-I" + HARN, "-Wno-everything"]
ENC = ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics",
       "-include", HARN + "/pre.h", "-fsanitize=" + SAN, "-fsanitize-trap=all"]
PASSES = ("internalize,globaldce,function(sroa,simplifycfg),cgscc(inline),"
          "function(sroa,early-cse,simplifycfg,instsimplify,sroa),globaldce")
CBMC = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check",
        "--unwinding-assertions", "--no-malloc-may-fail", "--object-bits", "11", "--json-ui", "--trace", "--verbosity", "8"]


class Tool(Exception):
    pass


def run(cmd, timeout=None, mem_gb=None, env=None):
    def pre():
        os.setpgrp()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("latin-1"), e.decode("latin-1")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except Exception:
            pass
        p.communicate()
        return "timeout", "", ""


def ensure_tool():
    src = os.path.join(VERIF, "tools", "ll2c.cpp")
    if os.path.exists(LL2C) and os.path.getmtime(LL2C) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(LL2C), exist_ok=True)
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"]).decode().split()
    libs = subprocess.check_output(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "analysis"]).decode().split()
    tmp = LL2C + ".tmp%d" % os.getpid()
    subprocess.check_call(["clang++", "-O1"] + flags + [src, "-o", tmp] + libs)
    os.rename(tmp, LL2C)


class Job:
    """One harness entry with its case split: params is a list of tuples, one CBMC query each."""
    def __init__(self, src, entry, params=((),), unwind=20, defs=(), timeout=600, solver=(), note="", err_ok=False,
                 replay_defs=(), unwind_max=None, mem=10, extra=()):
        self.src, self.entry, self.params = src, entry, [tuple(p) if isinstance(p, (tuple, list)) else (p,) for p in params]
        self.unwind, self.defs, self.timeout, self.note = unwind, list(defs), timeout, note
        self.solver = list(solver) or ["--sat-solver", "cadical", "--slice-formula"]
        self.err_ok, self.replay_defs, self.unwind_max, self.mem = err_ok, list(replay_defs), unwind_max, mem
        self.extra = list(extra)
        if err_ok:
            self.defs.append("-DVF_ERR_OK")

    def key(self):
        return self.src + ":" + self.entry + ("" if not self.defs else "[" + " ".join(d[2:] for d in self.defs) + "]")


class Checker:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        base = os.environ.get("VF_TMP") or tempfile.gettempdir()
        self.tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=base)
        self.bc, self.nat, self.locks = {}, {}, {}
        self.lock, self.ctr = threading.Lock(), itertools.count()
        self.functions = set()
        self.queries = self.vccs = self.steps = self.covers = self.asserts = 0
        self.vars = self.clauses = 0
        self.solver_s = 0.0
        self.cbmc_s = 0.0
        self.witness_ok = self.witness_bad = 0
        self.samples = []
        self.errors = []
        self.violations = []
        self.rebuilt = 0
        self.jobinfo = []
        self.cov = {}

    # ---- encoding -------------------------------------------------------
    def compile(self, job):
        k = (job.src, tuple(job.defs))
        out = os.path.join(self.tmp, "m%d.bc" % next(self.ctr))
        self.bc[k] = out
        cmd = ["clang++"] + CXX + ENC + job.defs + ["-c", "-emit-llvm", os.path.join(HARN, job.src), "-o", out]
        rc, o, e = run(cmd, timeout=300)
        if rc != 0:
            raise Tool("compile of %s failed:\n%s" % (job.src, e[-3000:]))
        return out

    def encode(self, job):
        bc = self.bc[(job.src, tuple(job.defs))]
        stem = os.path.join(self.tmp, "e%d_%s" % (abs(hash((job.src, tuple(job.defs)))) % 10**8, job.entry))
        rc, o, e = run(["opt", bc, "-passes=internalize,globaldce", "-internalize-public-api-list=" + job.entry, "-S", "-o", stem + ".r.ll"], timeout=120)
        if rc != 0:
            raise Tool("opt failed: " + e[-2000:])
        names = []
        with open(stem + ".r.ll") as f:
            for l in f:
                if l.startswith("define "):
                    m = re.search(r'@("?)([^"(]+)\1\(', l)
                    if m:
                        names.append(m.group(2))
        rc, o, e = run(["opt", bc, "-passes=" + PASSES, "-internalize-public-api-list=" + job.entry, "-inline-threshold=1000000",
                        "-o", stem + ".o.bc"], timeout=300)
        if rc != 0:
            raise Tool("opt failed: " + e[-2000:])
        rc, o, e = run([LL2C, stem + ".o.bc", job.entry, stem + ".g.c"], timeout=120)
        if rc != 0:
            raise Tool("ll2c failed on %s: %s" % (job.key(), e[-2000:]))
        with open(stem + ".c", "w") as f:
            if job.err_ok:
                f.write("#define VF_ERR_OK 1\n")
            for x in ("prelude.h",):
                f.write(open(os.path.join(VERIF, "lib", x)).read())
            f.write(open(stem + ".g.c").read())
            f.write("int main(void) { vf_main(); return 0; }\n")
        return stem + ".c", names

    # ---- one solver query ----------------------------------------------
    def query(self, job, cfile, par, unwind):
        cmd = ["cbmc", cfile] + ["-DVF_P%d=%dULL" % (i, p) for i, p in enumerate(par)] + \
            ["--unwind", str(unwind)] + CBMC + job.solver + job.extra
        t = time.time()
        rc, o, e = run(cmd, timeout=job.timeout, mem_gb=job.mem)
        dt = time.time() - t
        if rc == "timeout":
            return dict(status="timeout", dt=dt)
        try:
            js = json.loads(o)
        except Exception:
            return dict(status="error", dt=dt, msg="cbmc rc=%s: %s" % (rc, (o[-500:] + e[-1500:])))
        res = dict(status="ok", dt=dt, fails=[], covers_missed=[], covers=0, asserts=0, solver_s=0.0, steps=0, vccs=0, vars=0, clauses=0, cover_traces=[], unwind_fails=[])
        got, unknown = False, None
        for it in js:
            mt = it.get("messageText", "")
            m = re.search(r"Runtime decision procedure: ([\d.e+-]+)s", mt) or re.search(r"Runtime Solver: ([\d.e+-]+)s", mt)
            if m and "Runtime Solver" in mt:
                res["solver_s"] += float(m.group(1))
            m = re.search(r"size of program expression: (\d+) steps", mt)
            if m:
                res["steps"] = int(m.group(1))
            m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", mt)
            if m:
                res["vccs"] = int(m.group(1))
            m = re.search(r"(\d+) variables, (\d+) clauses", mt)
            if m:
                res["vars"], res["clauses"] = int(m.group(1)), int(m.group(2))
            if it.get("messageType") == "ERROR":
                return dict(status="error", dt=dt, msg="cbmc: " + mt)
            if "result" in it:
                got = True
                for r in it["result"]:
                    d = r.get("description", "")
                    st = r.get("status")
                    if d.startswith("COVER:"):
                        res["covers"] += 1
                        if st == "FAILURE":
                            res["cover_traces"].append((d, self.values(r)))
                        else:
                            res["covers_missed"].append(d)
                        continue
                    res["asserts"] += 1
                    if st == "SUCCESS":
                        continue
                    if st != "FAILURE":  # UNKNOWN: behind a failing memory access
                        unknown = "status %s for %s" % (st, d)
                        continue
                    rec = dict(desc=d, prop=r.get("property"), values=self.values(r), status=st)
                    if "unwinding assertion" in d or "recursion unwinding" in d:
                        res["unwind_fails"].append(rec)
                    else:
                        res["fails"].append(rec)
        if unknown and not res["fails"]:
            return dict(status="error", dt=dt, msg=unknown)
        if not got:
            return dict(status="error", dt=dt, msg="no result: " + o[-800:] + e[-500:])
        return res

    @staticmethod
    def values(r):
        vals = []
        for s in r.get("trace", []):
            if s.get("stepType") == "input" and s.get("inputID") == "vfin":
                v = s["values"][0]
                b = v.get("binary")
                vals.append(int(b, 2) if b else int(re.sub(r"[^0-9]", "", v.get("data", "0")) or 0))
        return vals

    # ---- replay ----------------------------------------------------------
    def native(self, job, kind="asan"):
        k = ("native", kind, job.src, tuple(job.defs), tuple(job.replay_defs))
        with self.lock:
            lk = self.locks.setdefault(k, threading.Lock())
        with lk:
            if k not in self.nat:
                try:
                    self.nat[k] = self.native_build(job, kind)
                except Tool as x:
                    self.nat[k] = x
        if isinstance(self.nat[k], Tool):
            raise self.nat[k]
        return self.nat[k]

    def native_build(self, job, kind):
        out = os.path.join(self.tmp, "n%d" % next(self.ctr))
        if kind == "asan":
            cmd = ["g++", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-exceptions"]
        elif kind == "plain":
            cmd = ["g++", "-g", "-O1", "-fno-exceptions"]
        else:
            cmd = ["clang++", "-g", "-O1", "-fsanitize=memory", "-fno-exceptions"]
        cxx = [c for c in CXX if c != "-Wno-everything"] + ["-w"]
        cmd += cxx + job.defs + job.replay_defs + ["-DVF_NATIVE", os.path.join(HARN, job.src), os.path.join(HARN, "replay.cpp"), "-rdynamic", "-ldl", "-o", out]
        rc, o, e = run(cmd, timeout=300)
        if rc != 0:
            raise Tool("native build failed: " + e[-2000:])
        return out

    def write_values(self, path, job, par, values, desc):
        with open(path, "w") as f:
            f.write("# harness %s entry %s defs %s\n# solver: %s\n" % (job.src, job.entry, " ".join(job.defs), desc))
            for i, p in enumerate(par):
                f.write("param %d %d\n" % (i, p))
            for v in values:
                f.write("%d\n" % v)

    def replay(self, job, path, kinds=("asan",)):
        """returns (confirmed, text)"""
        txt = ""
        for kind in kinds:
            try:
                exe = self.native(job, kind)
            except Tool as x:
                txt += str(x)
                continue
            for fill in ("none", "205", "0", "255"):
                env = dict(os.environ)
                env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
                if fill != "none":
                    env["VF_FILL"] = fill
                rc, o, e = run([exe, job.entry, path], timeout=20, env=env)
                txt = "[%s] rc=%s\n%s\n%s" % (kind, rc, o[-800:], e[:2500])
                if rc == "timeout":
                    return True, txt + "\nnative run does not terminate (20 s)"
                if rc not in (0, 3):
                    return True, txt
        return False, txt

    # ---- all jobs ---------------------------------------------------------
    def run_jobs(self, jobs):
        t0 = time.time()
        with ThreadPoolExecutor(NCORE) as ex:
            uniq = {}
            for j in jobs:
                uniq.setdefault((j.src, tuple(j.defs)), j)
            for f in [ex.submit(self.compile, j) for j in uniq.values()]:
                f.result()
            encs = {}
            for j in jobs:
                if j.key() not in encs: # two jobs may share an encoding
                    encs[j.key()] = ex.submit(self.encode, j)
            pend = {}
            for j in jobs:
                cf, names = encs[j.key()].result()
                self.functions.update(names)
                for par in j.params:
                    pend[ex.submit(self.one, j, cf, par)] = (j, par)
            for f in as_completed(pend):
                f.result()
        if not self.violations:
            for k, cv in self.cov.items():
                for d, n in cv.items():
                    if n == 0:
                        self.errors.append("%s: vacuous: witness never reachable: %s" % (k, d))
        self.wall = time.time() - t0

    def one(self, job, cfile, par):
        if self.violations:
            return  # already decided
        uw = job.unwind(par) if callable(job.unwind) else job.unwind
        umax = job.unwind_max or max(64, 4 * uw)
        while True:
            r = self.query(job, cfile, par, uw)
            self.queries += 1
            self.cbmc_s += r["dt"]
            tag = "%s%s" % (job.key(), list(par))
            if os.environ.get("VF_VERBOSE"):
                print("  %-60s %-8s %.1fs %s" % (tag, r["status"], r["dt"], "" if r["status"] != "ok" else "asserts=%d fails=%d unw=%d covers=%d/%d" % (
                    r["asserts"], len(r["fails"]), len(r["unwind_fails"]), r["covers"] - len(r["covers_missed"]), r["covers"])), flush=True)
            if r["status"] != "ok":
                self.errors.append("%s: %s %s" % (tag, r["status"], r.get("msg", "")))
                return
            self.solver_s += r["solver_s"]
            self.steps += r["steps"]; self.vccs += r["vccs"]; self.vars += r["vars"]; self.clauses += r["clauses"]
            self.asserts += r["asserts"]; self.covers += r["covers"]
            if r["fails"]:
                unconfirmed = None
                # property assertions first
                for fl in sorted(r["fails"], key=lambda x: 0 if x["desc"].startswith("VF:") else 1)[:12]:
                    n = len(self.violations)
                    d = os.path.join(VERIF, "build", "replay")
                    os.makedirs(d, exist_ok=True)
                    p = os.path.join(d, "%s_%s_%s.txt" % (self.prop, job.entry, "_".join(map(str, par)) or "x"))
                    self.write_values(p, job, par, fl["values"], fl["desc"])
                    ok, txt = self.replay(job, p, ("asan", "msan"))
                    if ok:
                        with open(p, "a") as f:
                            f.write("".join("# " + l + "\n" for l in txt.splitlines()))
                        self.violations.append(dict(tag=tag, desc=fl["desc"], replay=p, text=txt, entry=job.entry, par=list(par)))
                        return
                    unconfirmed = (fl, txt)
                self.errors.append("%s: counterexample not reproduced natively: %s %s\n%s" % (tag, unconfirmed[0]["desc"], unconfirmed[0]["values"][:40], unconfirmed[1][-600:]))
                return
            if r["unwind_fails"]:
                fl = r["unwind_fails"][0]
                p = os.path.join(self.tmp, "uw_%s_%s.txt" % (job.entry, "_".join(map(str, par)) or "x"))
                self.write_values(p, job, par, fl["values"], fl["desc"])
                ok, txt = self.replay(job, p, ("asan",))
                if ok:
                    d = os.path.join(VERIF, "build", "replay")
                    os.makedirs(d, exist_ok=True)
                    q = os.path.join(d, os.path.basename(p))
                    shutil.copy(p, q)
                    with open(q, "a") as f:
                        f.write("".join("# " + l + "\n" for l in txt.splitlines()))
                    self.violations.append(dict(tag=tag, desc=fl["desc"], replay=q, text=txt, entry=job.entry, par=list(par)))
                    return
                if uw >= umax:
                    self.errors.append("%s: unwinding bound %d insufficient (%s)" % (tag, uw, fl["prop"]))
                    return
                uw = min(umax, uw * 2)
                continue
            # vacuity: each query reaches some witness, each witness is reached in some query of its job
            if not r["cover_traces"]:
                self.errors.append("%s: vacuous: no witness reachable: %s" % (tag, r["covers_missed"]))
                return
            with self.lock:
                cv = self.cov.setdefault(job.key(), {})
                for d in r["covers_missed"]:
                    cv.setdefault(d, 0)
                for d, _ in r["cover_traces"]:
                    cv[d] = cv.get(d, 0) + 1
            # validate the encoding: replay one solver witness natively
            for d, v in r["cover_traces"][:1]:
                p = os.path.join(self.tmp, "w_%s_%s.txt" % (job.entry, "_".join(map(str, par)) or "x"))
                self.write_values(p, job, par, v, d)
                if job.params.index(par) in (0, len(job.params) - 1):
                    try:
                        exe = self.native(job, "asan")
                    except Tool as x:
                        self.errors.append(str(x)); return
                    env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
                    rc, o, e = run([exe, job.entry, p], timeout=30, env=env)
                    if rc == 0 and ("reached: " + d[7:]) in o:
                        self.witness_ok += 1
                    else:
                        self.witness_bad += 1
                        print("NOTE: witness for %s did not replay: rc=%s %s %s" % (tag, rc, o[-300:], e[:600]))
                if len(self.samples) < 6:
                    self.samples.append(dict(harness=tag, witness=d, inputs=v[:48]))
            self.jobinfo.append(dict(harness=tag, unwind=uw, asserts=r["asserts"], vccs=r["vccs"], vars=r["vars"], clauses=r["clauses"], cbmc_s=round(r["dt"], 2)))
            return

    def evidence(self, assumptions, bounds, level="model_checking"):
        def dem(names):
            o = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(sorted(names)).encode(), stdout=subprocess.PIPE).stdout.decode().splitlines()
            return sorted(set(x for x in o if "c4::" in x and not x.startswith("h_") and "UnnamedType" not in x))
        fns = dem(self.functions)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level,
                  coverage=dict(
                      states=self.steps, transitions=self.vccs, traces_validated_against_impl=self.witness_ok,
                      samples=self.samples or ["none"],
                      explanation="bounded model checking by CBMC over C generated from the LLVM IR of the real code: states = SSA steps "
                                  "executed symbolically, transitions = verification conditions generated; each assertion decided for all values within the bounds.",
                      queries=self.queries, assertions_decided=self.asserts, vacuity_witnesses=self.covers, witness_replays_failed=self.witness_bad,
                      sat_variables=self.vars, sat_clauses=self.clauses, solver_s=round(self.solver_s, 2), cbmc_s=round(self.cbmc_s, 2),
                      functions_encoded=fns, n_functions_encoded=len(fns), bounds=bounds, harnesses=sorted(self.jobinfo, key=lambda x: x["harness"])),
                  assumptions=assumptions, wall_s=round(self.wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(self.tmp, ignore_errors=True)
