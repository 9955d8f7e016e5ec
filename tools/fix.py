"""fix.py PROP 'what failed': commit /repo's working tree as a fix and record it."""
import json, subprocess, sys
prop, what = sys.argv[1:3]
git = lambda *a: subprocess.run(["git", "-C", "/repo"] + list(a), check=True, capture_output=True, text=True).stdout.strip()
if len(sys.argv) == 4 and not sys.argv[3].endswith(".py"):
    h = sys.argv[3]
else:
    git("commit", "-qm", "fix: " + what, *(["tensap/" + f for f in sys.argv[3:]] or ["-a"]))
    h = git("rev-parse", "--short", "HEAD")
p = "/verif/known_findings.json"
d = json.load(open(p))
d["fixed"].append("fixed: property=%s %s %s" % (prop, h, what))
json.dump(d, open(p, "w"), indent=1)
print(d["fixed"][-1])
