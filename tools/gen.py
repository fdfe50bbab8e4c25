#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import NOT_CLAIMED, PROPS  # noqa: E402

ROOT = os.path.dirname(HERE)
with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unchanged (tools/sync.py)", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 run.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p['id']}",
        "technique": p.get("technique", "property-based testing: generated cases against an independent reference, with shrinking; thorough adds coverage-guided search"),
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS if p["id"] not in NOT_CLAIMED],
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_CLAIMED.items()],
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
with open(f"{HERE}/pkgs.py", "w") as f:
    # package, and the feature of h-core that holds the property
    feats = {"store": "P23 P24", "exec": "P30 P31 P32 P33 P34 P35", "pool": "P25 P26", "wal": "P27 P28", "chain": "P29 P40 P41", "api": "P39 P42 P43 P44"}
    of = {i: f for f, ids in feats.items() for i in ids.split()}
    f.write("# generated by gen.py\nPKG = " + json.dumps({p["id"]: p["pkg"] + (":" + of[p["id"]] if p["pkg"] == "h-core" else "") for p in PROPS}, indent=1) + "\n")
