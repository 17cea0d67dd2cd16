#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's working tree.

  run.py --property P11 [--tier quick|thorough]     decide a property
  run.py --replay FILE                              re-run a recorded violation
  run.py --setup                                    build the engine only

Every run recompiles the harness together with the sources of /repo to LLVM
bitcode, executes it symbolically (engine/), lets z3 decide every assertion on
every path, and replays each counterexample natively before reporting it."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SV_REPO", "/repo")
sys.path.insert(0, V)
ENGINE = os.path.join(V, ".build", "engine")
SVSYM = os.path.join(ENGINE, "svsym")
CLANG = "/usr/bin/clang++-18"
COMMON = ["-std=c++14", "-DNDEBUG", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_CPUID", "-ffp-contract=off", "-w",
          "-I" + os.path.join(V, "harness")]
EIGEN = ["-isystem", "/usr/include/eigen3"]


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)


def build_engine():
    r = sh(["bash", os.path.join(V, "engine", "build.sh"), ENGINE])
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        sys.exit(2)


def incs(unit):
    d = [os.path.join(REPO, "incremental_calibration", "include")]
    for i in unit.get("inc", []):
        d.append(i if i.startswith("/") else os.path.join(REPO, i))
    out = []
    for s in unit.get("stubs", []):
        out += ["-I" + os.path.join(V, "stubs", s)]
    for x in d:
        out += ["-I" + x]
    return out + EIGEN


def sources(unit):
    s = [os.path.join(V, "harness", unit["src"])]
    s += [os.path.join(V, "stubs", x) for x in unit.get("stubsrc", [])]
    s += [os.path.join(REPO, x) for x in unit.get("repo", [])]
    return s


class Unit:
    """one harness file with the repository sources it drives"""

    def __init__(self, spec, tier, work, tag):
        self.spec, self.work, self.tag = spec, work, tag
        self.flags = COMMON + incs(spec) + ["-DSV_TIER=%d" % (tier == "thorough")] + spec.get("flags", [])
        self.bc = os.path.join(work, tag + ".bc")
        self.native = os.path.join(work, tag + ".native")
        self.plain = os.path.join(work, tag + ".plain")
        self.err = None

    def compile_bc(self, pool):
        san = [] if self.spec.get("real_only") else ["-fsanitize=signed-integer-overflow,float-cast-overflow,shift", "-fsanitize-trap=all"]
        fl = [CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-fno-finite-loops", "-fno-builtin-memset",
              "-gline-tables-only", "-emit-llvm", "-c"] + san + self.flags
        jobs, objs = [], []
        for i, s in enumerate(sources(self.spec)):
            o = "%s.%d.o.bc" % (self.bc, i)
            objs.append(o)
            jobs.append(pool.submit(sh, fl + [s, "-o", o]))
        for j in jobs:
            r = j.result()
            if r.returncode:
                self.err = r.stderr
                return
        r = sh([SVSYM, "prep", self.bc] + objs + [os.path.join(ENGINE, "support.bc")])
        if r.returncode:
            self.err = r.stderr

    def compile_native(self, pool, plain=False):
        out = self.plain if plain else self.native
        san = ["-O1" if plain else "-O0", "-g1"] + ([] if plain else ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,alignment,null,enum,nonnull-attribute"])
        jobs, objs = [], []
        for i, s in enumerate(sources(self.spec) + [os.path.join(V, "native", "sv_native.cpp")]):
            o = "%s.%d.o" % (out, i)
            objs.append(o)
            jobs.append(pool.submit(sh, ["g++", "-c"] + san + self.flags + ["-fno-builtin-random", s, "-o", o]))
        for j in jobs:
            r = j.result()
            if r.returncode:
                return r.stderr
        r = sh(["g++"] + san + objs + ["-rdynamic", "-ldl", "-lpthread", "-o", out] + self.spec.get("libs", []))
        return r.stderr if r.returncode else None


def run_native(binary, entry, values, mode, diff, work, timeout=20, valgrind=False):
    f = tempfile.NamedTemporaryFile("w", dir=work, suffix=".val", delete=False)
    for k, v in values:
        f.write("%s %s\n" % (k.replace(" ", "_"), v))
    f.close()
    cmd = [binary, "sv_entry_" + entry, f.name, mode] + (["diff"] if diff else [])
    env = dict(os.environ, ASAN_OPTIONS="exitcode=86:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=86:print_stacktrace=1")
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=86", "--track-origins=no"] + cmd
        timeout *= 3
    try:
        r = sh(cmd, timeout=timeout, env=env, preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_CPU, (timeout + 5, timeout + 6)))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        o = e.stdout.decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        return "timeout", o, ""
    finally:
        os.unlink(f.name)


def reproduces(unit, entry, cex, pool):
    """does the counterexample show up in the natively compiled code?"""
    mode, diff = entry["mode"], entry.get("diff", False)
    t = entry.get("hang_s", 10)
    rc, out, err = run_native(unit.native, entry["name"], cex["values"], mode, diff, unit.work, t)
    if "ASSUME-FAIL" in out:
        return False, "inputs outside the assumptions when run natively"
    fails = re.findall(r"^FAIL (\S+)(.*)$", out, re.M)
    k = cex["kind"]
    if k == "check":
        for f, d in fails:
            if f == cex["id"]:
                return True, "native run: FAIL %s%s" % (f, d)
    if k == "budget":
        if rc == "timeout":
            return True, "native run does not return within %d s" % t
        return False, "native run returns"
    if k in ("terminate", "uncaught"):
        if rc == 5 or (isinstance(rc, int) and rc < 0):
            m = re.search(r"^UNCAUGHT.*$", out, re.M)
            return True, m.group(0) if m else "native run ends with signal %s" % rc
    if k in ("memory", "uninit"):
        if rc == 86 or (isinstance(rc, int) and rc < 0):
            lines = [l for l in err.splitlines() if "ERROR" in l or "runtime error" in l]
            return True, "native run: " + (lines[0] if lines else "signal %s" % rc)
        if "uninitialised" in cex["detail"] or k == "uninit":
            if not os.path.exists(unit.plain):
                e = unit.compile_native(pool, plain=True)
                if e:
                    return False, "plain build failed"
            rc, out, err = run_native(unit.plain, entry["name"], cex["values"], mode, diff, unit.work, 30, valgrind=True)
            if rc == 86 or "uninitialised" in err:
                lines = [l for l in err.splitlines() if "ninitialised" in l]
                return True, "valgrind: " + (re.sub(r"^==\d+==\s*", "", lines[0]) if lines else "error")
            for f, d in re.findall(r"^FAIL (\S+)(.*)$", out, re.M):
                if f == cex["id"]:
                    return True, "native run: FAIL %s%s" % (f, d)
    # an earlier symptom of the same inputs still shows the violation
    if fails and k != "check":
        return True, "native run: FAIL %s%s" % fails[0]
    if rc == 86 or (isinstance(rc, int) and rc < 0) or rc == 5:
        lines = [l for l in err.splitlines() + out.splitlines() if "ERROR" in l or "runtime error" in l or "UNCAUGHT" in l]
        return True, "native run: " + (lines[0] if lines else "exit %s" % rc)
    return False, "native run passes (exit %s)" % rc


def close(a, b, mode):
    try:
        x, y = float(a), float(b)
    except ValueError:
        return a == b
    if x == y or (x != x and y != y):
        return True
    tol = 1e-5 if mode == "real" else 0
    return abs(x - y) <= tol * (1 + max(abs(x), abs(y)))


def validate(unit, entry, sample):
    """a sampled path must behave natively exactly as the interpreter says"""
    rc, out, err = run_native(unit.native, entry["name"], sample["values"], entry["mode"], entry.get("diff", False), unit.work, 20)
    if "ASSUME-FAIL" in out:
        return "assume"
    if rc not in (0, 3):
        return "native exit %s: %s" % (rc, (err or out)[-300:])
    nat = [l[4:].split(" ", 2) for l in out.splitlines() if l.startswith("OBS ")]
    sym = [o.split(" ") for o in sample["obs"]]
    if len(nat) != len(sym):
        return "observation count %d vs %d" % (len(nat), len(sym))
    for n, s in zip(nat, sym):
        n = [n[0]] + " ".join(n[1:]).split(" ")
        if s[-1] == "?":
            continue
        if n[:2] != s[:2]:
            return "observation order %s vs %s" % (n, s)
        if not (close(n[2], s[2], entry["mode"]) if n[0] == "d" else n[2] == s[2]):
            return "observation %s: native %s, engine %s (inputs %s)" % (n[1], n[2], s[2], sample["values"])
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--entry")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    build_engine()
    if a.setup:
        return 0
    from checks import CHECKS
    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        a.property, a.tier, a.entry = replay["property"], replay["tier"], replay["entry"]
    prop = a.property
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(V, ".build", "run"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="%s.%s." % (prop, a.tier), dir=os.path.join(V, ".build", "run"))
    try:
        return decide(a, prop, spec, seed, t0, work, replay)
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def decide(a, prop, spec, seed, t0, work, replay):
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop]
    pool = cf.ThreadPoolExecutor(12)
    top = cf.ThreadPoolExecutor(16)
    units = [Unit(u, a.tier, work, "u%d" % i) for i, u in enumerate(spec["units"])]
    if a.entry:
        for u in units:
            u.spec = dict(u.spec, entries=[e for e in u.spec["entries"] if e["name"] == a.entry])
        units = [u for u in units if u.spec["entries"]]
    nat = {id(u): top.submit(u.compile_native, pool) for u in units} if replay else {}
    if replay:
        u = units[0]
        e = nat[id(u)].result()
        if e:
            print(e[-3000:])
            return 2
        ok, why = reproduces(u, u.spec["entries"][0], replay["cex"], pool)
        print(json.dumps(replay["cex"], indent=1))
        print(("REPRODUCED " if ok else "NOT REPRODUCED ") + why)
        if ok:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
        return 1 if ok else 0
    bcs = {id(u): top.submit(u.compile_bc, pool) for u in units}
    nat = {id(u): top.submit(u.compile_native, pool) for u in units}
    for u in units:
        bcs[id(u)].result()
        if u.err:
            print("ERROR: the harness %s does not compile against the current tree" % u.spec["src"])
            print(u.err[:3000])
            return 2
    results = []
    errors = []
    deadline = t0 + (780 if a.tier == "quick" else 3 * 3600)
    for u in units:
        for e in u.spec["entries"]:
            opt = dict(time=240, paths=400000, instr=4000000)
            opt.update(spec.get("opt", {}))
            opt.update(e.get("opt", {}))
            opt.update(e.get(a.tier, {}))
            if a.tier == "thorough" and "time" not in e.get("thorough", {}):
                opt["time"] *= 4
            opt["time"] = max(5, min(opt["time"], deadline - time.time()))
            out = os.path.join(work, e["name"] + ".json")
            cmd = [SVSYM, "run", u.bc, "sv_entry_" + e["name"], "--out", out, "--prefix", REPO + "/", "-j", "8"]
            if e["mode"] == "real":
                cmd.append("--real")
            for k, v in opt.items():
                cmd += ["--" + k.replace("_", "-"), str(v)]
            r = sh(cmd)
            if r.returncode or not os.path.exists(out):
                errors.append("engine failed on %s: %s" % (e["name"], r.stderr[-1500:]))
                continue
            if a.v and r.stderr:
                print(r.stderr[-6000:])
            j = json.load(open(out))
            results.append((u, e, j))
            if a.v:
                print("%-28s %6.1fs paths=%d %s complete=%s queries=%d unknown=%d cex=%d" % (e["name"], j["wall_s"], j["paths"], j["kinds"], j["complete"], j["solver"]["queries"], j["solver"]["unknown"], len(j["cexs"])))
                for m, n in j["messages"].items():
                    print("    %dx %s" % (n, m[:700]))
                for c, s in j["checks"].items():
                    print("    %-44s reached=%d proved=%d cex=%d unknown=%d witness=%s" % (c, s["reached"], s["proved"], s["cex"], s["unknown"], s["witness"]))
    # ---- replay
    viol, findings, unrepro = [], [], []
    validated, mismatch, samples = 0, [], []
    for u, e, j in results:
        err = nat[id(u)].result()
        if err:
            print("ERROR: native build failed")
            print(err[-3000:])
            return 2
        done = set()
        jobs = []
        for c in j["cexs"]:
            if sum(1 for d in done if d[0] == c["id"]) >= 3:
                continue
            ok, why = reproduces(u, e, c, pool)
            rec = {"property": prop, "tier": a.tier, "entry": e["name"], "cex": c, "native": why}
            kf = None
            for k in known:
                if k["entry"] == e["name"] and k["check"] == c["id"] and ("where" not in k or eval(k["where"], {}, {"v": dict((x[0].split("#")[0], x[1]) for x in c["values"]), "detail": c["detail"], "f": lambda s: float.fromhex(s) if "0x" in s else float(s)})):
                    kf = k
            if not ok:
                unrepro.append(rec)
            elif kf:
                findings.append((kf, rec))
                done.add((c["id"], 0))
            else:
                os.makedirs(os.path.join(V, "evidence", "replays"), exist_ok=True)
                h = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:10]
                p = os.path.join(V, "evidence", "replays", "%s-%s-%s.json" % (prop, e["name"], h))
                json.dump(rec, open(p, "w"), indent=1)
                viol.append((p, rec))
                done.add((c["id"], h))
        res = list(pool.map(lambda s: validate(u, e, s), j["samples"]))
        for s, r in zip(j["samples"], res):
            if r is None:
                validated += 1
                if len(samples) < 12:
                    samples.append({"entry": e["name"], "inputs": dict(s["values"][:24]), "observed": s["obs"][:16]})
            elif r != "assume":
                mismatch.append("%s: %s" % (e["name"], r))
    # ---- evidence
    tot = lambda k: sum(j[k] for _, _, j in results)
    sol = lambda k: sum(j["solver"][k] for _, _, j in results)
    fns = sorted(set(f for _, _, j in results for f in j["functions"]))
    checks = {}
    for _, e, j in results:
        for c, s in j["checks"].items():
            d = checks.setdefault(c, dict(reached=0, proved=0, cex=0, unknown=0, witness=False))
            for k in ("reached", "proved", "cex", "unknown"):
                d[k] += s[k]
            d["witness"] = d["witness"] or s["witness"]
    inconcl = []
    vacuous = []
    for _, e, j in results:
        if not j["complete"]:
            inconcl.append("%s: exploration stopped (%s) with %d unexplored prefixes" % (e["name"], j["stopped"], j["unexplored"]))
        for k, n in j["kinds"].items():
            if k not in ("done", "infeasible", "violation", "exit"):
                inconcl.append("%s: %d paths ended as %s" % (e["name"], n, k))
        if j["kinds"].get("violation") and not any(s["cex"] or s["unknown"] for s in j["checks"].values()):
            inconcl.append("%s: %d paths ended in a failure no query recorded" % (e["name"], j["kinds"]["violation"]))
        for c, s in j["checks"].items():
            if s["unknown"]:
                inconcl.append("%s: %s undecided on %d paths" % (e["name"], c, s["unknown"]))
        if not any(s["witness"] for s in j["checks"].values()) and not j["cexs"]:
            vacuous.append(e["name"])
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths"), "transitions": tot("branches"), "traces_validated_against_impl": validated, "samples": samples or [{"note": "no sampled path"}],
            "path_outcomes": {e["name"]: j["kinds"] for _, e, j in results},
            "complete_within_bounds": {e["name"]: j["complete"] for _, e, j in results},
            "bounds": spec.get("bounds", ""), "outside_bounds": spec.get("outside", ""),
            "number_domain": {e["name"]: "exact real arithmetic" if e["mode"] == "real" else "bit-precise (bit-vectors, IEEE-754)" for _, e, j in results},
            "functions_encoded": fns, "instructions_interpreted": tot("instructions"),
            "queries": sol("queries"), "queries_unsat": sol("unsat"), "queries_sat": sol("sat"), "queries_unknown": sol("unknown"), "solver_seconds": round(sol("seconds"), 3),
            "assertions": checks, "inconclusive": inconcl, "counterexamples_not_reproduced": unrepro[:8], "engine_native_mismatches": mismatch[:8],
        },
        "assumptions": spec.get("assumptions", []) + [
            "clang 18's translation of the sources to LLVM IR, this engine's semantics of LLVM IR, and z3 are trusted; sampled paths are cross-checked against the g++ build",
            "libstdc++'s shared-library internals (tree, hash, list helpers), operator new, iostream formatting and libm are modelled",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not a.entry:
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for kf in known:
        hits = [r for k, r in findings if k is kf]
        if hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    print("%s %s: %d paths, %d branch decisions, %d queries (%d unsat, %d sat, %d unknown) in %.1f s solver time, %d functions of the repository encoded, %d sampled paths validated natively, %.1f s" % (
        prop, a.tier, tot("paths"), tot("branches"), sol("queries"), sol("unsat"), sol("sat"), sol("unknown"), sol("seconds"), len(fns), validated, time.time() - t0))
    for i in inconcl:
        print("inconclusive: " + i)
    for r in unrepro[:5]:
        print("not reproduced (not reported): %s %s: %s %s" % (r["entry"], r["cex"]["id"], r["cex"]["detail"][:300], r["native"]))
    for m in mismatch[:5]:
        print("engine/native mismatch: " + m[:1500])
    for p, r in viol[:6]:
        print("  %s in %s: %s; %s; inputs %s" % (r["cex"]["id"], r["entry"], r["cex"]["detail"][:500], r["native"][:300], r["cex"]["values"][:30]))
    for p, r in viol[:3]:
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if viol:
        return 1
    if errors or vacuous:
        for x in errors:
            print("ERROR: " + x)
        for x in vacuous:
            print("ERROR: no assertion of entry %s was reached on a satisfiable path" % x)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
