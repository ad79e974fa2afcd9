#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks: every observation goes through public API", "source_commits": []},
    "checks": [{
        "property": i,
        "quick_cmd": "python3 tools/check.py %s quick" % i,
        "thorough_cmd": "python3 tools/check.py %s thorough" % i,
        "technique": PROPS[i].get("technique", "TLA+ specification model-checked with TLC; traces recorded from the real code validated against it"),
        "level": "model_checking",
        "level_note": PROPS[i]["note"],
    } for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in PROPS],
    "notes": "TLA+/TLC. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
