#!/usr/bin/env python3
# tools/seeds/mk.py [ID...]: writes /verif/seeded/<id>/ (patch.diff against /repo's HEAD, demo, meta.json) from the definitions in defs_*.py
import difflib, glob, importlib.util, json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); repo = os.environ.get("VERIF_REPO", "/repo"); out = os.path.join(here, "../../seeded")
SRC = "reference/src/"
def head(f): return subprocess.check_output(["git", "-C", repo, "show", "HEAD:" + f], text=True)
defs = []
for f in sorted(glob.glob(here + "/defs_*.py")):
    spec = importlib.util.spec_from_file_location("d", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); defs += m.SEEDS
ids = [d["id"] for d in defs]; assert len(set(ids)) == len(ids)
for d in defs:
    if len(sys.argv) > 1 and d["id"] not in sys.argv[1:]: continue
    files = {}
    for f, old, new in d["edits"]:
        f = SRC + f; t = files.get(f) or head(f)
        assert t.count(old) == 1, (d["id"], f, t.count(old), old[:60])
        files[f] = t.replace(old, new)
    p = os.path.join(out, d["id"]); os.makedirs(p, exist_ok=True)
    with open(p + "/patch.diff", "w") as o:
        for f, t in sorted(files.items()):
            o.write("diff --git a/%s b/%s\n" % (f, f))
            o.writelines(difflib.unified_diff(head(f).splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    for x in ("demo.sh", "demo.hpp"): shutil.copy(os.path.join(here, "demo_provider.sh" if x == "demo.sh" and d.get("provider") else x), os.path.join(p, x))
    open(p + "/demo.cpp", "w").write('#include "demo.hpp"\n' + d["demo"].strip() + "\n")
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(p + "/meta.json", "w"), indent=1); open(p + "/meta.json", "a").write("\n")
    print(d["id"])
