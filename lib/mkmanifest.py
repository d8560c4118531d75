"""writes MANIFEST.json from lib/props.py (run by hand)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        note = p["note"] + (" Not proved: " + p["not_proved"] if p.get("not_proved") else "") + (" Bounded: " + p["bounded"] if p.get("bounded") else "") + " Trusted: Verus and Z3, the extraction to Verus' subset (its drops are listed in the evidence), assumed contracts of std functions, derived Clone/PartialEq, documents fit the address space; inputs satisfy the representation invariant (see DESIGN.md)."
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                            "technique": "contract-based deductive verification (Verus) of the extracted code; failed obligations replayed by a search for inputs",
                            "level": "proof", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
