"""caught.py [ID…]: runs the check of each planted bug's property on a copy of /repo with the bug, and records in tools/caught.json what it reports."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
fn = V + "/tools/caught.json"
for i in ids:
    d = tempfile.mkdtemp(prefix="caught_"); r = d + "/repo"
    try:
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        p = subprocess.run(["git", "apply", "--unsafe-paths", "--directory", r, V + "/seeded/%s/patch.diff" % i], cwd="/", capture_output=True, text=True)
        if p.returncode: print(i, "patch does not apply", p.stderr[:200]); continue
        pr = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
        e = dict(os.environ, DV_REPO=r, VERIF_SEED="1", VERIF_TIER="quick")
        o = subprocess.run(["python3-vt", "check.py", pr], cwd=V, env=e, capture_output=True, text=True, timeout=1500).stdout
        obl = sorted({l.split("failed obligation: ")[1].split(" / ")[0] for l in o.splitlines() if "failed obligation" in l})
        inp = "VIOLATION" in o and "no-failing-input" not in o
        s = "MISSED" if "VIOLATION" not in o else " and ".join((["failed conditions of " + ", ".join("`%s`" % x for x in obl)] if obl else []) + (["a failing input"] if inp else []))
        print(i, pr, s, flush=True)
        try: cg = json.load(open(fn))
        except Exception: cg = {}
        cg[i] = s; json.dump(cg, open(fn, "w"), indent=0, sort_keys=True)
    finally: shutil.rmtree(d, ignore_errors=True)
