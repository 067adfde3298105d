"""tools/addknown.py REPLAY ID WHAT: add a minimised replay to known_findings.json."""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
data = json.load(open(P)) if os.path.exists(P) else {"findings": [], "fixed": []}
if sys.argv[1] == "fixed":
    data["fixed"].append(f"fixed: property={sys.argv[2]} {sys.argv[3]} {sys.argv[4]}")
else:
    r = json.load(open(sys.argv[1]))
    data["findings"] = [f for f in data["findings"] if f["id"] != sys.argv[2]]
    data["findings"].append({"id": sys.argv[2], "property": r["property"], "kind": r["kind"], "what": sys.argv[3], "plan": r["plan"], "choices": r["choices"]})
json.dump(data, open(P, "w"), indent=1)
