"""fixcommit.py PID "fix title" "what failed": commit /repo's working tree as a fix and record it"""
import json, subprocess, sys
pid, title, what = sys.argv[1:4]
subprocess.check_call(["git", "-C", "/repo", "commit", "-qam", "fix: " + title])
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short=12", "HEAD"], text=True).strip()
p = "/verif/known_findings.json"
d = json.load(open(p))
d.setdefault("fixed", []).append("fixed: property=%s %s %s" % (pid, h, what))
json.dump(d, open(p, "w"), indent=1)
print(h)
