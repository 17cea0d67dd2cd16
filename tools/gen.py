#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import checks, spec
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(spec.P[k]) + "\n" for k in sorted(spec.P)))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
for k in sorted(spec.P):
    if k in checks.CHECKS:
        c = checks.CHECKS[k]
        note = "Symbolic execution of the compiled sources, every assertion decided by z3 on every path within the bounds: " + c["bounds"] + ". Trusted: clang's IR, the engine's IR semantics, z3; sampled paths and every counterexample are replayed against a native build."
        if c.get("outside"):
            note += " Outside: " + c["outside"] + "."
        m["checks"].append(dict(property=k, quick_cmd="python3 run.py --property %s --tier quick" % k, thorough_cmd="python3 run.py --property %s --tier thorough" % k,
                                technique="symbolic execution of LLVM IR with SMT solving (z3)", level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=k, reason=spec.NA.get(k, "no check yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")

# the generated parts of DESIGN.md
import re, oracles, glob
def fill(s, name, text):
    return re.sub(r"(<!-- %s: [^>]*-->\n).*?(<!-- end -->)" % name, lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
d = open(os.path.join(V, "DESIGN.md")).read()
t = ""
for k in sorted(spec.P):
    p, c, (o, w) = spec.P[k], checks.CHECKS[k], oracles.O[k]
    t += "### %s %s\n\n%s\n\nOracle: %s\n\nBounds: %s.%s\n\nBeyond tests: %s. Cost: %s.\n\n" % (k, p["title"], p["statement"], o, c["bounds"], " Outside: " + c["outside"] + "." if c.get("outside") else "", w, oracles.COST.get(k, "?"))
d = fill(d, "properties", "\n" + t)
d = fill(d, "fixes", "\n" + "".join("* %s\n" % re.sub(r"fixed: property=(\S+) (\S+) ", r"\1 (`\2`): ", x) for x in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]) + "\n")
t = "\n| bug | property | what it breaks | needs |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    x = json.load(open(f))
    t += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), x["property"], x["what_it_breaks"], x["needs"])
d = fill(d, "seeded", t + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write(d)
