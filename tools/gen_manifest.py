#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {os.path.basename(f)[:3].upper() for f in glob.glob(V + "/harness/p[0-9][0-9]_*.cpp")}
NA = {}
m = {"version": 1, "setup_cmd": "./tools/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"],
                 "thorough_cmd": "./check %s --tier thorough" % p["id"],
                 "technique": "stateless model checking: exhaustive bounded exploration of the real code against a reference model",
                 "level": "model_checking",
                 "level_note": "Every choice sequence (inputs, operation histories, interleavings, truncation points, prior memory content) within the bounds of DESIGN.md is executed on the code built from /repo/src under ASan+UBSan and compared with an independent reference model after every operation. Nothing beyond the bounds is claimed."
                   + ("" if p["id"] <= "P12" else " The absent ggdatetime library is replaced by the stand-in in shim/, which is trusted.")}
                for p in props if p["id"] in have],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in have],
     "notes": "One explorer (mc/), one harness per property (harness/). ./check ID --replay FILE re-runs a reported execution."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
