"""Writes /verif/seeded/<id> from a description:  python3 tools/mkbug.py FILE
FILE is a python file defining BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=python text, fake=bool)]."""
import difflib, json, os, runpy, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
only = sys.argv[2:]
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = os.path.join(HERE, "..", "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in b["edits"]:
        s = files.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        files[f] = s.replace(old, new)
    with open(d + "/patch.diff", "w") as o:
        for f, s in files.items():
            a = open("/repo/" + f).read()
            o.write("diff --git a/%s b/%s\n" % (f, f))
            o.writelines(difflib.unified_diff(a.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
    with open(d + "/meta.json", "w") as o:
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, o, indent=1)
        o.write("\n")
    shutil.copy(HERE + "/demolib.py", d)
    if b.get("fake"):
        shutil.copy(HERE + "/faketime.c", d)
    with open(d + "/demo.py", "w") as o:
        o.write(b["demo"].lstrip("\n"))
    with open(d + "/demo.sh", "w") as o:
        o.write('#!/bin/sh\nexec timeout 120 python3 -B "$(dirname "$0")/demo.py"\n')
    print(b["id"])
