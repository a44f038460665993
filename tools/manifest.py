#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": {"guard": "parcom_verif",
              "enable": "RUSTFLAGS='--cfg parcom_verif' (set by check.py when it builds /verif/engine against /repo)",
              "source_commits": ["b24d6c9", "87a9883"]},
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "technique": d.get("technique", "contracts on the real functions, extracted from /repo on every run, discharged by Verus; "
                                        "failures replayed by bounded search on the real crates"),
        "level": d["level"],
        "level_note": d.get("note", "Every obligation of the contracts over the listed functions is discharged for all inputs; trusted: "
                                    "the extraction (tools/vx), Verus/Z3 and the assumptions in the evidence file. Where the proof cannot "
                                    "be redone on a changed tree the check falls back to the bounded search and says so."),
        **({"theorems": d["theorems"]} if d.get("theorems") else {}),
    } for p, d in sorted(PROPS.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
