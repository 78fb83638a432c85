#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]  -- decide one property for /repo's current working tree.

1. Deductive part: verification conditions for every function under contract are generated from the current
   sources and discharged by SMT solvers.
2. Replay part: the real code, compiled from the current sources with AddressSanitizer, is run against an
   independent oracle; it looks for a concrete input behind a failed obligation and stands in (bounded) for
   functions the verifier cannot take."""
import sys, os, json, time, subprocess, tempfile, shutil, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "dv"))
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DV_REPO", "/repo")
import concurrent.futures as cf, multiprocessing as mp
from props import P

def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)

# ---------------------------------------------------------------- deductive part
def gen_worker(name):
    import prove
    if not prove.CONTRACTS:
        prove.load_contracts(); prove.BASE.update(prove.baseline_locals()); prove.setup_renames()
    return prove.gen(name)

def norm_label(l):
    l = re.sub(r"line \d+:? ?", "", l); return re.sub(r"\(line \d+\)", "", l)

def deductive(prop, funcs, lemmas, tier, report):
    import prove, solve, spec
    prove.load_contracts()
    todo = sorted(set(funcs))
    ctx = mp.get_context("fork")
    tp = cf.ThreadPoolExecutor(8)
    results = {}; futs = []
    budget = 20 if tier == "quick" else 60
    try: proved_before = json.load(open(os.path.join(VERIF, "contracts", "baseline.json")))
    except Exception: proved_before = {}
    t0 = time.time()
    def submit(name, kind, label, line, path, text):
        futs.append((name, kind, label, line, path, tp.submit(solve.discharge, text, budget)))
    covers = []
    info = {}
    used = set()
    with cf.ProcessPoolExecutor(6, mp_context=ctx) as ex:
        pend = {ex.submit(gen_worker, n): n for n in sorted(todo, key=lambda n: -proved_before.get(n, {}).get("queries", 0))}
        for f in cf.as_completed(pend):
            n = pend[f]
            try: r = f.result()
            except Exception as e: r = dict(name=n, file="?", status="unmapped", reason=repr(e), texts=[], cover=[], nobl=0, gen_s=0)
            info[n] = r
            if r["status"] == "ok":
                used |= set(r["lemmas"])
                for (i, kind, label, line, path, text) in r["texts"]: submit(n, kind, label, line, path, text)
                for lab, text in r["cover"]: covers.append((n, lab, tp.submit(solve.quick_unsat, text, 2)))
    import z3
    spec.reset_ctx()
    if used or any(r["status"] == "ok" for r in info.values()):
        for a, h, g in spec.sum_lemma_obligations():
            s = z3.Solver(); s.add(*h); s.add(z3.Not(g)); submit("lemma:" + a.split("/")[0], "lemma", a, 0, "", s.to_smt2())
    for lf in lemmas:
        for (nm, assm, goal, cx) in lf():
            for t in solve.build(assm, goal, cx, drop=False): submit("lemma:" + nm.split("/")[0], "lemma", nm, 0, "", t)
    out = {}
    for name, kind, label, line, path, f in futs:
        st, be, secs = f.result()
        o = out.setdefault(name, dict(total=0, proved=0, failed=[], timeout=[], secs=0.0, backends={}))
        o["total"] += 1; o["secs"] += secs
        if st == "proved": o["proved"] += 1; o["backends"][be] = o["backends"].get(be, 0) + 1
        else: o["failed" if st in ("failed", "refuted") else "timeout"].append(dict(kind=kind, label=label, line=line, path=path, status=st, solvers=be))
    vac = [(n, lab) for n, lab, f in covers if f.result()]
    report.update(info=info, out=out, vacuous=vac, covers=len(covers), solve_wall=time.time() - t0, base=proved_before)
    return report

# ---------------------------------------------------------------- replay part
class Harness:
    def __init__(s, spec_, modes): 
        s.spec = spec_; s.modes = modes; s.dir = tempfile.mkdtemp(prefix="dvh_"); s.err = None; s.built = False
    def build(s):
        try:
            src = os.path.join(s.dir, "src"); shutil.copytree(os.path.join(REPO, "src"), src, ignore=shutil.ignore_patterns("*.o", "*.a", "*.lo"))
            jobs = []
            flags = ["-g", "-O1", "-w", "-fno-pie", "-fno-omit-frame-pointer", "-fsanitize=address", "-std=gnu17", "-I" + src, "-I" + os.path.join(VERIF, "harness")] + s.spec.get("cflags", [])
            objs = []
            for f in s.spec["sources"]:
                o = os.path.join(s.dir, os.path.basename(f) + ".o"); objs.append(o)
                p = os.path.join(VERIF, f) if f.startswith("harness/") else os.path.join(REPO, f) if not f.startswith("src/") else os.path.join(s.dir, f)
                jobs.append((f, subprocess.Popen(["gcc", "-c"] + flags + [p, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
            ho = os.path.join(s.dir, "harness.o")
            jobs.append(("harness", subprocess.Popen(["gcc", "-c"] + flags + [os.path.join(VERIF, "harness", s.spec["main"]), "-o", ho], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
            for f, j in jobs:
                e = j.communicate()[1]
                if j.returncode: s.err = "compiling %s: %s" % (f, e[-600:])
            if s.err: return
            s.exe = os.path.join(s.dir, "h")
            l = sh(["gcc", "-fsanitize=address", "-no-pie", "-o", s.exe, ho] + objs + ["-lgsl", "-lgslcblas", "-lm"])
            if l.returncode: s.err = "linking: " + l.stderr[-600:]
            else: s.built = True
        except Exception as e: s.err = repr(e)
    def _env(s, tag):
        e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0:log_path=%s" % os.path.join(s.dir, "asan" + tag)
        return e
    def run(s, mode, seed, secs, tag="0"):
        """-> None (quiet) or dict(case, message, input)"""
        mark = os.path.join(s.dir, "mark" + tag)
        wd = os.path.join(s.dir, "w" + tag); os.makedirs(wd, exist_ok=True)
        try: p = subprocess.run([s.exe, mode, str(seed), str(secs), mark], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=wd, env=s._env(tag), timeout=secs + 120)
        except subprocess.TimeoutExpired: return dict(case=None, message="harness did not finish", input="", rc="timeout", cases=0)
        out = p.stdout.decode("utf8", "replace")
        m = re.search(r"CASES (\d+) NONTRIVIAL (\d+)", out)
        if p.returncode == 0 and m: 
            l = re.search(r"LAST (.*)", out)
            return dict(case=-1, cases=int(m.group(1)), nontrivial=int(m.group(2)), sample=l.group(1)[:600] if l else "")
        try: case = int(open(mark).read().split()[0])
        except Exception: case = None
        msg = re.search(r"BUG .*", out); inp = re.search(r"INPUT .*", out)
        text = msg.group(0) if msg else "the code under test crashed (exit status %d)" % p.returncode
        import glob
        for f in glob.glob(os.path.join(s.dir, "asan" + tag + "*")):
            a = open(f, errors="replace").read(); mm = re.search(r"ERROR: AddressSanitizer: .*", a); text += " | " + (mm.group(0) if mm else "") + " | " + " <- ".join(re.findall(r"in (\w+) [^\n]*?/src/(?:\w+\.c:\d+)", a)[:4])
        return dict(case=case, message=text, input=inp.group(0) if inp else "", rc=p.returncode, cases=0)
    def one(s, mode, case):
        wd = os.path.join(s.dir, "w1"); os.makedirs(wd, exist_ok=True)
        try: p = subprocess.run([s.exe, mode, "--case", str(case)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=wd, env=s._env("one"), timeout=200)
        except subprocess.TimeoutExpired: return None, "timeout"
        return p.returncode, p.stdout.decode("utf8", "replace")
    def close(s): shutil.rmtree(s.dir, ignore_errors=True)

def search(hs, seed, secs, jobs):
    """run all modes of all harnesses, several seeds in parallel; first failure wins"""
    res = []; todo = [(h, m) for h in hs for m in h.modes]
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs = [((h, m), ex.submit(h.run, m, seed * 16 + k, secs, "%s_%d" % (m, k))) for h, m in todo for k in range(max(1, jobs // len(todo)))]
        for m, f in fs: res.append((m, f.result()))
    return res

def main():
    prop = sys.argv[1]; cfg = P[prop]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    hs = ([Harness(cfg["harness"], cfg["modes"])] if cfg.get("harness") else []) + [Harness(a, b) for a, b in cfg.get("extra", [])]
    try: rc = run(prop, cfg, tier, seed, t0, hs)
    finally:
        for h in hs: h.close()
    sys.exit(rc)

def replay(prop, cfg, hs, path):
    d = json.load(open(path))
    if d.get("case") is None: print("this replay names a failed obligation only:"); print(json.dumps(d, indent=1)[:4000]); return 1
    h = [h for h in hs if h.spec["main"] == d.get("harness")][0]
    h.build()
    if not h.built: print(h.err); return 2
    rc, out = h.one(d["mode"], d["case"]); print(out); return 1 if rc else 0

def run(prop, cfg, tier, seed, t0, hs):
    if "--replay" in sys.argv: return replay(prop, cfg, hs, sys.argv[sys.argv.index("--replay") + 1])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True); os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    import prove
    prove.load_contracts()
    funcs = list(prove.PROPS.get(prop, []))
    # functions called through their contract are proved as well
    rep = {}
    bex = cf.ThreadPoolExecutor(2)
    bf = [bex.submit(h.build) for h in hs]
    if funcs or prove.LEMMAS.get(prop): deductive(prop, funcs, prove.LEMMAS.get(prop, []), tier, rep)
    else: rep.update(info={}, out={}, vacuous=[], covers=0, base={}, solve_wall=0)
    for f in bf: f.result()
    base = rep["base"]
    alarms = []; undecided = []; relooped = []
    for n in sorted(rep["out"]):
        o = rep["out"][n]
        known = set(base.get(n, {}).get("open", []))
        # loop annotations are attached to loops by position: where the loops of the function are arranged
        # otherwise than in the annotated source, the annotations are not known to speak about these loops, and what
        # is not discharged is undecided, not refuted
        moved = n in base and "skel" in base[n] and rep["info"].get(n, {}).get("skel") not in (None, base[n]["skel"])
        if moved: relooped.append(n); undecided += [dict(function=n, **x) for x in o["failed"] + o["timeout"]]; continue
        for x in o["failed"]:
            (undecided if norm_label(x["kind"] + ": " + x["label"]) in known or (not n.startswith("lemma:") and n not in base) else alarms).append(dict(function=n, **x))
        # an obligation discharged for the original source but out of reach for a changed source counts as failed;
        # out of reach although the source is the original one is a matter of machine load: undecided
        changed = n in base and rep["info"].get(n, {}).get("src") != base[n].get("src")
        for x in o["timeout"]: (alarms if changed and norm_label(x["kind"] + ": " + x["label"]) not in known else undecided).append(dict(function=n, **x))
    for n, r in rep["info"].items():
        if r["status"] != "ok": undecided.append(dict(function=n, kind="unmapped", label=r["reason"][:300], status="unmapped"))
    vac = rep["vacuous"]
    # ---- replay / stand-in
    secs = cfg.get("secs", 10) * (1 if tier == "quick" else 10)
    bugs = []; cases = nontriv = 0; samples = []; herr = None
    if hs:
        for h in hs:
            if not h.built: herr = h.err
        if any(h.built for h in hs):
            if alarms or undecided and tier == "quick": secs = secs * 3
            for m, r in search([h for h in hs if h.built], seed, secs, 8):
                if r["case"] == -1: cases += r["cases"]; nontriv += r["nontrivial"]; samples.append(dict(mode=m[1], input=r["sample"]))
                elif r.get("rc") == "timeout": herr = "mode %s did not finish" % m[1]
                else: bugs.append((m, r))
    known = known_findings(prop)
    real = []
    for m, r in bugs:
        k = [d for d in known if d["match"] in r["message"]]
        if k: print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
        else: real.append((m, r))
    viol = 0; rc = 0
    if real:
        m, r = real[0]; path = os.path.join(VERIF, "replay", "%s.json" % prop)
        json.dump(dict(property=prop, harness=m[0].spec["main"], mode=m[1], case=r["case"], message=r["message"], input=r["input"], seed=seed,
                       how="python3-vt /verif/check.py %s --replay %s   (rebuilds the harness from /repo and runs this case)" % (prop, path),
                       failed_obligations=alarms[:10], undecided=undecided[:10]), open(path, "w"), indent=1)
        print("property %s: %s" % (prop, r["message"])); print("  input: %s" % r["input"][:500])
        for a in alarms[:5]: print("  failed obligation: %s / %s: %s (line %s)" % (a["function"], a["kind"], a["label"], a["line"]))
        print("VIOLATION property=%s replay=%s" % (prop, path)); viol = 1; rc = 1
    elif alarms:
        path = os.path.join(VERIF, "replay", "%s.json" % prop)
        json.dump(dict(property=prop, case=None, failed_obligations=alarms, undecided=undecided[:20], cases_tried=cases,
                       note="these obligations were discharged on the original tree; the solver no longer accepts them; no failing input was found"), open(path, "w"), indent=1)
        for a in alarms[:8]: print("failed obligation: %s / %s: %s (line %s) [%s]" % (a["function"], a["kind"], a["label"], a["line"], a["solvers"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)); viol = 1; rc = 1
    # ---- evidence
    tot = sum(o["total"] for o in rep["out"].values()); prv = sum(o["proved"] for o in rep["out"].values())
    backends = {}
    for o in rep["out"].values():
        for b, k in o["backends"].items(): backends[b] = backends.get(b, 0) + k
    fl = []
    for n in funcs:
        r = rep["info"].get(n); o = rep["out"].get(n, dict(total=0, proved=0, failed=[], timeout=[], secs=0))
        fl.append(dict(function=n, file=r["file"], state="proved" if r["status"] == "ok" and o["total"] == o["proved"] and not (r.get("trusted")) else ("undecided" if r["status"] == "ok" else "not translated"),
                       conditions=o["total"], discharged=o["proved"], solver_s=round(o["secs"], 2), calls_by_contract=r.get("called", []), inlined=r.get("inlined", []), externals=r.get("ext", []), open=[x["kind"] + ": " + x["label"] for x in (o["failed"] + o["timeout"])][:20], reason=r.get("reason", "")[:200]))
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], wall_s=round(time.time() - t0, 2), violations=viol,
        assumptions=cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
        coverage=dict(obligations=tot, discharged=prv, checker_cmd="python3-vt dv/prove.py " + " ".join(funcs) if funcs else "none",
            trusted_base=TRUSTED + cfg.get("trusted", []),
            functions_under_contract=fl, lemmas=[dict(name=n, conditions=o["total"], discharged=o["proved"]) for n, o in sorted(rep["out"].items()) if n.startswith("lemma:")],
            by_back_end=backends, solver_seconds=round(sum(o["secs"] for o in rep["out"].values()), 2),
            vacuity=dict(reachability_checks=rep["covers"], vacuous=vac), undecided=undecided[:40], loops_rearranged=relooped,
            bounded_standin=cfg.get("bounded", []), evaluations=cases, distinct_nontrivial=nontriv, rule=cfg.get("rule", ""), samples=samples[:3] or ["none"],
            harness_error=herr or "", explanation=cfg["explain"]))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d of %d conditions discharged over %d functions, %d undecided, %d cases run on the real code (%s), %.0f s" % (prop, prv, tot, len(funcs), len(undecided), cases, herr or "harness ok", time.time() - t0))
    if vac: print("  vacuous contexts: %s" % vac)
    return rc

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for d in json.load(open(p))["findings"]:
            if d["property"] == prop: out.append(d)
    return out

COMMON_ASSUMPTIONS = ["machine doubles are treated as mathematical reals (rounding, overflow to infinity and NaN not modelled)",
    "memory allocation succeeds", "blocks of different declared types do not overlap (type-based aliasing)",
    "external functions (C library, GSL) behave as their contracts in dv/vc.py state", "input sizes are below 2^31"]
TRUSTED = ["clang 18 front end (AST of the current sources)", "dv/ verification condition generator", "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2", "the contracts in contracts/"]
if __name__ == "__main__": main()
