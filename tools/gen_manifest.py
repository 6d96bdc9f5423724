"""Writes properties.jsonl and MANIFEST.json from tools/props.py. Run: python3 tools/gen_manifest.py"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import HERE, P  # noqa: E402

have = [p for p in P if os.path.exists(os.path.join(HERE, "rv", "checks", p["rec"]["id"].lower() + ".py"))]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["rec"]["title"]) <= 80, p["rec"]["title"]
        f.write(json.dumps(p["rec"]) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./run --setup",
    "checks": [
        {
            "property": p["rec"]["id"],
            "quick_cmd": f"./run {p['rec']['id']} quick",
            "thorough_cmd": f"./run {p['rec']['id']} thorough",
            "evidence_file": f"evidence/{p['rec']['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        }
        for p in have
    ],
    "not_applicable": [
        {"property": p["rec"]["id"], "reason": "its monitor is not built yet"} for p in P if p not in have
    ],
    "notes": "All checks run the code of /repo's working tree directly (pure Python); no hooks are added to /repo: instrumentation uses sys.monitoring from outside.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(have), "checks")
