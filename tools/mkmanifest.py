"""Writes /verif/MANIFEST.json from the list of properties and of existing checks."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
V = "TLA+ specification + TLC: trace validation of recorded executions of the real code against spec/%s"
G = "; behaviours generated by TLC replayed into the real code"
NOTES = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    n = NOTES.get(p, {})
    if os.path.exists(os.path.join(ROOT, "checks", p + ".py")):
        checks.append({
            "property": p, "quick_cmd": "python3 checks/run.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": n.get("technique", V % (p + "Trace.tla")),
            "level": "model_checking",
            "level_note": n.get("note", "The specification is evaluated by TLC on every recorded execution of the real code; "
                                "assurance is bounded by the inputs driven (seeded, small integer data). Trusts TLC, NumPy and the "
                                "float-to-integer projection in harness/vp.py.")})
    else:
        na.append({"property": p, "reason": n.get("na", "not claimed yet: its check is under construction")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the public API exposes the abstract state. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
