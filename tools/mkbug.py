"""Writes /verif/seeded/<id>/ from an edit (file, old text, new text) and a demonstration script."""
import os, json, difflib, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
def bug(id, prop, needs, breaks, edits, demo, files={}):
    d = ROOT + "/seeded/" + id; os.makedirs(d, exist_ok=True); out = ""; texts = {}
    for f, old, new in edits:
        p = "/repo/" + f; t = texts.get(f) or open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        texts[f] = t.replace(old, new)
    for f, t in texts.items():
        o = open("/repo/" + f).read()
        out += "".join(difflib.unified_diff(o.splitlines(1), t.splitlines(1), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write("import sys, os, time; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demo_lib import *\n" + demo.lstrip("\n"))
    shutil.copy(HERE + "/demo_lib.py", d + "/demo_lib.py")
    for n, t in files.items(): open(d + "/" + n, "w").write(t)
