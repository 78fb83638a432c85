#!/usr/bin/env python3
"""seed.py ID...  -- (re)creates /verif/seeded/ID from tools/seeds.py-style entries, and confirms each in /repo:
builds, stable tests pass, demo passes on the unchanged tree and fails with the change, and which check reports it.
Leaves /repo as it was."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS
DEMO = """#!/bin/bash
# run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/w"
gcc -g -O1 -w -std=gnu17 -fno-pie -no-pie -Isrc "$here/demo.c" src/librgraph.a lib/.libs/libgnu.a -lgsl -lgslcblas -lm -o "$tmp/demo" || exit 3
repo=$PWD; cd "$tmp/w" && timeout 60 "$tmp/demo"
"""
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def make(i):
    s = SEEDS[i]; d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed_"); sh("git -C /repo archive HEAD | tar x -C %s && git -C %s init -q && git -C %s add -A && git -C %s -c user.name=a -c user.email=a@a commit -qm x" % (t, t, t, t))
    for f, old, new in s["edits"]:
        p = os.path.join(t, f); x = open(p, encoding="latin1", newline="").read()
        assert x.count(old) == 1, (i, f, x.count(old), old)
        open(p, "w", encoding="latin1", newline="").write(x.replace(old, new))
    df = subprocess.run(["git", "-C", t, "diff"], capture_output=True).stdout; shutil.rmtree(t)
    open(d + "/patch.diff", "wb").write(df); open(d + "/demo.c", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    return d
def confirm(i, checks=True):
    d = os.path.join(V, "seeded", i); out = {}
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    b = sh("bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1"); out["demo_clean"] = sh("bash %s/demo.sh" % d, cwd="/repo").returncode
    a = sh("git -C /repo apply %s/patch.diff" % d); assert a.returncode == 0, a.stderr
    try:
        r = sh("bash /opt/vp/test.sh /tmp/seed_test.json > /tmp/seed_build.log 2>&1")
        res = json.load(open("/tmp/seed_test.json")); out["stable_lost"] = sorted(STABLE - set(res["passed"]))
        x = sh("bash %s/demo.sh" % d, cwd="/repo"); out["demo_bug"] = x.returncode; out["demo_out"] = x.stdout[-200:]
        if checks:
            c = sh("VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py %s" % SEEDS[i]["property"], cwd=V); out["check_rc"] = c.returncode; out["check"] = c.stdout[-900:]
    finally: sh("git -C /repo checkout -- .")
    return out
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(SEEDS)
    for i in ids:
        make(i)
        if "-n" in sys.argv: continue
        o = confirm(i, "-q" not in sys.argv)
        ok = o["demo_clean"] == 0 and o["demo_bug"] not in (0, 3) and not o["stable_lost"]
        print("==", i, "COUNTS" if ok else "DOES NOT COUNT", "CAUGHT" if o.get("check_rc") == 1 else "missed", {k: v for k, v in o.items() if k != "check"} if not ok else o["demo_out"].strip()[-120:]); 
        if "check" in o: print("   ", o["check"].strip().replace("\n", "\n    "))
        sys.stdout.flush()
    sh("bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1")
