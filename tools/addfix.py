"""addfix.py PROPERTY COMMIT WHAT: records a repaired finding in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
d["findings"].append({"property": sys.argv[1], "status": "fixed", "commit": sys.argv[2], "what": "fixed: property=%s %s %s" % tuple(sys.argv[1:4])})
with open(p, "w") as f:
    f.write('{\n "findings": [\n' + ",\n".join("  " + json.dumps(x) for x in d["findings"]) + "\n ]\n}\n")
