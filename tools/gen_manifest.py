"""Writes MANIFEST.json from the table below; not claimed properties get the reason given."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + "/tools/claims.py").read())
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [], "notes": NOTES}
for p in props:
    if p in CLAIMS:
        t, level, n = CLAIMS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p, "technique": t, "level": level, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT.get(p, "not yet built")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
