"""Rewrites DESIGN.md: text from tools/design_head.md and design_tail.md, tables from the contracts, the baseline and tools/caught.json."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/dv", V + "/contracts", V]
import prove, props
prove.load_contracts()
b = json.load(open(V + "/contracts/baseline.json"))
t = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); t[d["id"]] = d
out = [open(V + "/tools/design_head.md").read()]
for k in sorted(props.P):
    c = props.P[k]; fs = prove.PROPS.get(k, [])
    q = sum(b[f]["queries"] for f in fs if f in b); op = [f for f in fs if b.get(f, {}).get("open")]
    out.append("**%s – %s.** %s.  \nUnder contract (%d functions, %d conditions): %s.  \n%s  \nHarness: `%s`%s; inputs: %s.%s\n" % (k, t[k]["title"], c["explain"][0].upper() + c["explain"][1:], len(fs), q,
        ", ".join("`%s`" % f for f in fs), ("Open conditions: " + "; ".join("`%s`: %s" % (f, ", ".join(b[f]["open"])) for f in op) + "." if op else "All discharged on the unchanged tree."),
        c["harness"]["main"], "".join(", `%s`" % a["main"] for a, m in c.get("extra", [])), c.get("rule", ""), "".join("\nAssumes: %s." % "; ".join(c["assumptions"]) if c.get("assumptions") else "")))
out.append(open(V + "/tools/design_tail.md").read())
try: cg = json.load(open(V + "/tools/caught.json"))
except Exception: cg = {}
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|\n")
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i)); g = cg.get(i)
    out.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), g or "its check"))
out.append(open(V + "/tools/design_end.md").read())
open(V + "/DESIGN.md", "w").write("".join(out))
