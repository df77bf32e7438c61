#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants a bug. SPEC.py defines id, prop, edits=[(file, old, new)...], demo (C++ source text), srcs (repo src files),
flags, needs, breaks.  The bug is tried in /repo's working tree (restored afterwards): it has to build, to pass the stable tests,
and its demo has to pass without and fail with it; then the check of its property is run against it."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def restore(): subprocess.run("git -C /repo checkout -- .", shell=True, check=True)
def build_test():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: return "build failed\n" + r.stdout[-1500:] + r.stderr[-500:]
    out = "/tmp/seed_out.%d.json" % os.getpid(); sh("bash /opt/vp/test.sh " + out)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); got = set(json.load(open(out))["passed"])
    return None if base <= got else "tests fail: %s" % sorted(base - got)[:5]
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = os.path.join(V, "seeded", ns["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/demo.cc", "w").write(ns["demo"])
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# Exits 0 on the unchanged tree and nonzero with the change.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -w -pthread -Iinclude -DGUL_USING_STATIC_LIB_OR_OBJECTS %s "$d/demo.cc" %s -o "$t/demo" || exit 2
timeout 120 "$t/demo"
''' % (ns.get("flags", ""), " ".join("src/" + s for s in ns.get("srcs", []))))
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode: print("DEMO FAILS ON CLEAN TREE", r.stdout, r.stderr); return 1
    try:
        for f, old, new in ns["edits"]:
            p = "/repo/" + f; s = open(p).read(); assert s.count(old) >= 1, ("not found", f, old)
            n = ns.get("nth", 0)
            i = -1
            for _ in range(n + 1): i = s.index(old, i + 1)
            open(p, "w").write(s[:i] + new + s[i + len(old):])
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        e = build_test()
        if e: print("REJECTED:", e); shutil.rmtree(d); return 1
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode == 0: print("DEMO PASSES WITH BUG"); shutil.rmtree(d); return 1
        print("planted", ns["id"], "demo rc", r.returncode)
        if len(sys.argv) < 3:
            c = sh("python3 check.py " + ns["prop"], cwd=V, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
            print("check rc", c.returncode, c.stdout[-700:], c.stderr[-1500:] if c.returncode not in (0, 1) else "")
    finally:
        restore()
    return 0
sys.exit(main())
