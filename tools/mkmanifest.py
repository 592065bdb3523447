"""MANIFEST.json from properties.jsonl and the modules present in vmon/props"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C33": "ticdat.mdb needs pyodbc with a Microsoft Access ODBC driver, which is neither installed nor installable "
           "here; no execution of the code can be observed, so runtime monitoring has nothing to monitor",
}
PENDING = "check under construction"
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "vmon", "props", p.lower() + ".py")):
        t = TECH.get(p, {})
        cmd = "/usr/bin/python3 /verif/check.py " + p
        checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd=cmd, evidence_file="evidence/%s.json" % p,
                           technique=t.get("technique", "runtime monitor: reference-model oracle over seeded random workloads"),
                           level="exploration",
                           level_note=t.get("note", "Held on every execution observed (counts in the evidence file); trusts the "
                                            "reference model in vmon/ref.py and the oracle in the check; says nothing about "
                                            "inputs outside the generators")))
    else:
        na.append(dict(property=p, reason=NA.get(p, PENDING)))
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=na,
         notes="All checks: python3 /verif/check.py <ID> [--replay FILE]; VERIF_SEED and VERIF_TIER select the run.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
