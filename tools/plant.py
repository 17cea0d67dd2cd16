#!/usr/bin/env python3
"""Writes a planted bug into /verif/seeded/<id>: plant(id, property, file,
[(old, new), ...], demo source, kind, needs, what)."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = os.path.join(V, "tools", "plantlib")


def plant(id, prop, file, edits, demo, kind, needs, what, src="", files=None, flags="", stubs=(), extra=()):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "--no-hardlinks", "/repo", t + "/r"])
    for f, es in ([(file, edits)] + list((files or {}).items())):
        p = os.path.join(t, "r", f)
        s = open(p).read()
        for o, n in es:
            assert s.count(o) == 1, (id, f, s.count(o), o)
            s = s.replace(o, n)
        open(p, "w").write(s)
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"]).decode()
    shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    sh = open(os.path.join(L, "demo_%s.sh" % kind)).read().replace("@SRC@", src).replace("@FLAGS@", flags)
    open(d + "/demo.sh", "w").write(sh)
    if kind in ("core", "est"):
        shutil.copy(os.path.join(L, "world.h"), d)
        shutil.rmtree(d + "/stubs", ignore_errors=True)
        shutil.copytree(os.path.join(V, "stubs", "backend"), d + "/stubs")
    for x in stubs:
        # the stand-ins needed, one folder each
        shutil.rmtree(d + "/stubs_" + x, ignore_errors=True)
        shutil.copytree(os.path.join(V, "stubs", x), d + "/stubs_" + x)
    for x in extra:
        shutil.copy(os.path.join(V, x), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    print(id)
