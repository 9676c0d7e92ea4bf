#!/usr/bin/env python3
"""python3 tools/gen_manifest.py rewrites MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
note = ("Searches generated cases against an explicit oracle; says nothing about cases outside the generators "
        "described in DESIGN.md. Trusts the Go toolchain, rapid and the harness models.")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": [{
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": CHECKS[i]["technique"],
        "level": CHECKS[i]["level"],
        "level_note": CHECKS[i].get("note", "") + (" " if CHECKS[i].get("note") else "") + note,
    } for i in ids if i in CHECKS],
    "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()],
    "notes": "No hooks: every check drives exported API. Checks build with GOWORK=/verif/harness/go.work over /repo's working tree and run the test binary as user nobody in a scratch directory.",
}
assert all(i in ids for i in CHECKS), "a check without a property"
miss = [i for i in ids if i not in CHECKS and i not in NOT_APPLICABLE]
for i in miss:
    m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", "unclaimed:", miss)
