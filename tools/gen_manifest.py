#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the harnesses present."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}     # id -> reason, for properties this technique cannot address
checks, na = [], []
TECH = json.load(open(V + "/tools/techniques.json"))
for p in props:
    i = p["id"]; low = i.lower()
    has = glob.glob(V + "/harness/%s*.cpp" % low) + glob.glob(V + "/harness/%s*.py" % low)
    if i in NA: na.append({"property": i, "reason": NA[i]})
    elif has:
        t = TECH.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t.get("technique", "property-based testing with generated inputs and a reference model"),
            "level": "exploration",
            "level_note": t.get("note", "Generated-input search on the sanitizer build of /repo's sources; nothing is established for inputs that were not generated. Trusts the harness's model, gcc and AddressSanitizer."),
        })
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
           "notes": "All machinery is generated-input search (see DESIGN.md). No hooks in /repo are needed: the checks build its sources out of tree under /verif/build and judge behaviour through the public C and Python interfaces."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
