"""Regenerates contracts/locals.json and contracts/baseline.json from the current (unchanged) tree."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/dv"); sys.path.insert(0, V)
import prove, cast, check
prove.load_contracts()
loc = {}
for n, c in prove.CONTRACTS.items():
    tu = cast.load(c.file)
    if n in tu.funcs: loc[n] = prove.local_types(tu, tu.funcs[n])
json.dump(loc, open(V + "/contracts/locals.json", "w"), indent=0, sort_keys=True)
only = sys.argv[1:]
fs = only or sorted({f for l in prove.PROPS.values() for f in l})
rep = check.deductive("x", fs, [], "quick", {})
try: old = json.load(open(V + "/contracts/baseline.json")) if only else {}
except Exception: old = {}
for n in fs:
    o = rep["out"].get(n); r = rep["info"][n]
    if r["status"] != "ok": print("UNMAPPED", n, r["reason"][:300]); old.pop(n, None); continue
    op = sorted({check.norm_label(x["kind"] + ": " + x["label"]) for x in o["failed"] + o["timeout"]})
    old[n] = dict(queries=o["total"], proved=o["proved"], open=op, src=r["src"], skel=r["skel"])
    print("%-30s %4d/%4d %6.1fs %s" % (n, o["proved"], o["total"], o["secs"], op[:4]))
print("vacuous", rep["vacuous"], "wall", rep["solve_wall"])
json.dump(old, open(V + "/contracts/baseline.json", "w"), indent=0, sort_keys=True)
