#!/usr/bin/env python3
"""regenerates MANIFEST.json from vlib/props.py (committed output)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash bin/setup.sh",
         checks=[dict(property=i, quick_cmd="python3 bin/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + i,
                      evidence_file="evidence/%s.json" % i, technique=PROPS[i].get("technique", "Verus contracts on the functions of /repo, translated mechanically on every run; random search for the failing input"),
                      level="proof", level_note=PROPS[i]["note"]) for i in ids if i in PROPS],
         not_applicable=[dict(property=i, reason=NA.get(i, "no contract yet")) for i in ids if i not in PROPS],
         notes="No hooks in /repo: the verified text is generated from /repo's sources by extract/, see DESIGN.md.")
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
