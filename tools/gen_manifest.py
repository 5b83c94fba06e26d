#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the harnesses that exist.
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(V + "/tools/levels.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(f"{V}/harness/{i.lower()}_*.cpp"):
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": n.get("technique", "stateless model checking of the real code (bounded-exhaustive enumeration) against a reference model"),
                       "level": n.get("level", "model_checking"),
                       "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "not built")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks are compiled into /repo: the checks interpose at link time. All /repo commits are repairs (fix:), listed in known_findings.txt."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
