"""DESIGN.md from tools/design_head.md, design_data.py, the check modules, known_findings.json, seeded/*/meta.json, design_tail.md"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from vmon import core
from design_data import D
core.prepare_repo()
rd = lambda f: open(os.path.join(V, "tools", f)).read()
out = [rd("design_head.md").rstrip(), "", "## Properties", ""]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
seeds = {}
sd = os.path.join(V, "seeded")
for q in sorted(os.path.join(V, x, b) for x in ("seeded", "seeded_more") if os.path.isdir(os.path.join(V, x)) for b in os.listdir(os.path.join(V, x))):
    b, m = os.path.basename(q), json.load(open(os.path.join(q, "meta.json")))
    seeds.setdefault(m["property"], []).append((b, m))
findings = json.load(open(os.path.join(V, "known_findings.json")))
fixed = {}
for f in findings["fixed"]:
    p = f.split("property=")[1].split(" ")[0]
    fixed.setdefault(p, []).append(f.split("property=%s " % p)[1])
for p in props:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    if i not in D:
        out += ["", rd("design_na.md").strip() if i == "C33" else "", ""]
        continue
    d, r = D[i], core.load_property(i)
    out += ["", "*Technique.* %s." % d["T"], "", "*Oracle.* " + d["O"], "", "*Workload.* %s." % (r.rule[0].upper() + r.rule[1:]), ""]
    for s in r.scenarios.values():
        out.append("- `%s` (%d cases quick, %d thorough): %s" % (s.name, s.quick, s.thorough, s.doc))
    out += ["", "*Beyond the tests.* " + d["W"]]
    if r.assumptions:
        out += ["", "*Bounds and assumptions.* " + "; ".join(a.strip() for a in r.assumptions) + "."]
    if i in seeds:
        out += ["", "*Planted bugs caught.* " + "; ".join("`%s`" % b for b, _ in seeds[i]) + "."]
    if i in fixed:
        out += ["", "*Defects found and repaired.*"] + ["- `%s` %s" % tuple(f.split(" ", 1)) for f in fixed[i]]
    for f in findings["findings"]:
        if f["property"] == i:
            out += ["", "*Known finding* `%s`: %s" % (f["key"], f["what"])]
    out.append("")
out += [rd("design_tail.md").rstrip(), ""]
out += ["## Planted bugs", "", "Each was confirmed in a scratch copy: stable tests pass, its demo fails with it and passes without, and the quick "
        "check of its property reports it.", "", "| bug | property | needs | breaks |", "|---|---|---|---|"]
cell = lambda s: " ".join(str(s).split()).replace("|", "\\|")
for p in sorted(seeds):
    for b, m in seeds[p]:
        out.append("| %s | %s | %s | %s |" % (b, p, cell(m["needs"]), cell(m["what_it_breaks"])))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
json.dump({k: {"technique": "runtime monitoring: " + v["T"], "note": "Held on every execution observed (counts in the evidence file). "
           "Oracle: " + v["O"] + " Says nothing about inputs outside the generators (bounds in DESIGN.md)."} for k, v in D.items()},
          open(os.path.join(V, "tools", "technique.json"), "w"), indent=1)
