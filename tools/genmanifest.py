#!/usr/bin/env python3
import json, sys
sys.path.insert(0, "/verif")
import props
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
TECH = "abstract interpretation of monomorphised MIR (custom rustc driver + relational abstract interpreter)"
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    P = props.PROPS.get(i)
    if P is None or P.get("na"):
        m["not_applicable"].append({"property": i, "reason": props.NA[i]})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "technique": P.get("technique", TECH), "level": P.get("level", "proof"),
        "level_note": P.get("note", "Every obligation on every path of the analysed program is discharged by the abstract domain on the unchanged tree; trusts rustc's MIR, the library models and the harness. On a changed tree only failures confirmed on a fully precise path are reported; obligations that become undecidable are listed in the evidence as undecided.")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
