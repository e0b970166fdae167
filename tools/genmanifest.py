"""Writes MANIFEST.json from the check modules present in checks/."""
import glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
nap = os.path.join(ROOT, "tools", "not_applicable.json")
if os.path.exists(nap):
    NA = json.load(open(nap))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m.TECH, "level": getattr(m, "LEVEL", "exploration"), "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
d = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the daemon is instrumented by link-time wrapping (shim/shim.c). See DESIGN.md; defects found are in known_findings.json."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
