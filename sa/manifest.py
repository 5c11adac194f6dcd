"""Regenerate MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, "not_applicable.json"))) if os.path.exists(os.path.join(V, "not_applicable.json")) else {}
TECH = getattr(check, "TECH", {})
m = {"version": 1, "setup_cmd": "python3 sa/build.py", "checks": [], "not_applicable": [],
     "notes": "Every check dumps the MIR of /repo's current working tree (cached by source hash) and analyses it; nothing of /repo is executed."}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if i in check.CHECKS:
        f, rule, floor, assume = check.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 sa/check.py %s" % i, "thorough_cmd": "python3 sa/check.py %s --thorough" % i,
                            "technique": TECH.get(i, "abstract interpretation of MIR (static analysis)"), "level": "other",
                            "level_note": rule + " At least %d obligations must be generated. Trusts: " % floor + "; ".join(assume) + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
