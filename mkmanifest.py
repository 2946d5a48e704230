#!/usr/bin/env python3
"""Writes MANIFEST.json from the table in check.py and from properties.jsonl."""
import json, os
import check
HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                      evidence_file="evidence/%s.json" % i, technique=check.PROPS[i]["technique"], level=check.PROPS[i].get("level", "exploration"),
                      level_note=check.PROPS[i]["note"]) for i in ids if i in check.PROPS],
         not_applicable=[dict(property=i, reason="its check is not built yet") for i in ids if i not in check.PROPS],
         notes="Every check compiles its harness from harness/ against the headers of /repo's working tree (VERIF_REPO overrides the path) and runs it; "
               "replay a reported case with: python3 check.py ID --replay FILE. No hooks in /repo.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
