#!/usr/bin/env python3
"""Regenerate MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE

here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = [{
    "property": i,
    "quick_cmd": "python3 check.py %s quick" % i,
    "thorough_cmd": "python3 check.py %s thorough" % i,
    "technique": "contract-based deductive verification: function contracts on the real code as Kani proof "
                 "harnesses with contract stubs for callees, discharged by CBMC without bounds",
    "level": "proof",
    "level_note": PROPS[i].get("note", "every obligation discharged for all inputs; callee contracts, trusted "
                  "base and assumptions are in the evidence file"),
} for i in ids if i in PROPS]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "carron_verif", "enable": "--cfg carron_verif, passed by kani/rustc-wrapper.sh to every "
              "crate of the harness build", "source_commits": [l.strip() for l in open(os.path.join(here, "hooks.txt"))]},
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")} for i in ids if i not in PROPS],
    "notes": "exit 2 means no verdict: the code does not build for the verifier, a contract lost its anchor, or the "
             "solver gave up; it is never reported as a violation",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
