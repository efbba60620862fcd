#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "exhaustive enumeration of documents against an executable reference model of the grammar"
REF = "Every document over the stated alphabets up to the stated number of symbols every shape with its one-place edits, and every Unicode character in six places, is run through the real code and compared with the reference model (harness/src/refmodel.rs); nothing is sampled. Trusts the reference model's reading of the published grammars and the properties' statements, and grapheme segmentation by the unicode-segmentation crate. Longer documents are only covered by periodic families."
CLAIMED = {
    "P01": (ENUM, "model_checking", REF),
    "P02": (ENUM, "model_checking", REF + " Nothing is demanded after a closing bracket of the wrong kind."),
    "P03": (ENUM + ", and of all token sequences", "model_checking", REF),
    "P04": (ENUM, "model_checking", REF),
    "P05": (ENUM, "model_checking", REF),
    "P06": (ENUM, "model_checking", REF + " Exact places are demanded only where there is at most one mistake per paragraph."),
    "P07": (ENUM, "model_checking", REF),
}
exec(open(os.path.join(here, "tools", "claims.py")).read()) if os.path.exists(os.path.join(here, "tools", "claims.py")) else None
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": CLAIMED[p["id"]][0], "level": CLAIMED[p["id"]][1], "level_note": CLAIMED[p["id"]][2],
    } for p in props if p["id"] in CLAIMED],
    "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CLAIMED],
    "notes": "No hooks: the checks link /repo's crates and run its brack binary as they are.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
