#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import models
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]


def entry(i):
    ms = [m for m, d in models.MODELS.items() if i in d["props"]]
    ws = sorted({f'{w["kind"]}/{w["n"]}' for w in models.WALKS if i in w["props"]})
    tech = "TLA+ specification checked with TLC: design models (" + ", ".join(ms) + ") and trace validation of recorded library calls"
    if ws:
        tech += "; call sequences generated from the specification (MCWalk " + ", ".join(ws) + ") replayed in the library"
    return {
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech,
        "level": "model_checking",
        "level_note": "Every recorded call (arguments and result) of the real library must be a step of the TLA+ specification; the histories are "
                      "exhaustive over small graphs/orders and random or structured beyond. The definitions and algorithms of the specification are "
                      "model-checked exhaustively for small constants. Trusts TLC, the JVM, rustc and the forwarding harness; inputs outside the "
                      "generated families are not covered.",
    }


m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [entry(i) for i in ids], "not_applicable": [],
     "notes": "No hooks: the public API exposes the abstract state. Specification in spec/, harness in harness/, see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
