"""tools/addfind.py ID PROPERTY COMMIT TEXT"""
import json, sys
p = __file__.rsplit("/", 2)[0] + "/known_findings.json"
d = json.load(open(p))
a, b, c, t = sys.argv[1:]
d["findings"].append({"id": a, "status": "fixed", "line": f"fixed: property={b} {c} {t}"})
open(p, "w").write('{\n "findings": [\n' + ",\n".join("  " + json.dumps(x) for x in d["findings"]) + "\n ]\n}\n")
