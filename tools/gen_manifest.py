#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/index.txt and checks/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
idx = [l.split() for l in open(V + "/checks/index.txt") if l.strip() and not l.startswith("#")]
meta = json.load(open(V + "/checks/meta.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = [i[0] for i in idx]
checks = []
for p in props:
    if p["id"] not in have: continue
    m = meta.get(p["id"], {})
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": m.get("technique", "bounded exhaustive exploration of the implementation against a reference model"),
        "level": m.get("level", "model_checking"), "level_note": m.get("note", "Exhaustive within the bounds stated in DESIGN.md and the evidence file, on the real code; nothing is claimed beyond them.")})
na = [{"property": p["id"], "reason": meta.get(p["id"], {}).get("na", "No check built yet.")} for p in props if p["id"] not in have]
json.dump({"version": 1, "setup_cmd": "./setup.sh",
  "hooks": {"guard": "SA_VERIF_MC", "enable": "no hook exists in /repo: the checks compile /repo's sources with their own build (tools/mcbuild.py) and bind the environment by linker --wrap; the define is set but unused", "source_commits": []},
  "checks": checks, "not_applicable": na,
  "notes": "Each check compiles /repo/reference/src with its own flags into /verif/build (git-ignored), explores exhaustively within its bounds, replays any failing case before reporting it, and writes its evidence file."},
  open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
