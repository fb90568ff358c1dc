#!/usr/bin/env python3
"""Rewrite MANIFEST.json's technique/level from proofs/units.json (what check.py reports)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
units = json.load(open(V + "/proofs/units.json"))
m = json.load(open(V + "/MANIFEST.json"))
for c in m["checks"]:
    us = [u for u, d in units.items() if c["property"] in d["props"]]
    if us:
        c["technique"] = "contract-based deductive verification: Verus contracts on functions extracted from /repo on every run (units: " + ", ".join(us) + "); bounded check of the real crate for the functions outside the verifier's reach"
        c["level"] = "proof"
        c["level_note"] = "proved for all inputs: the contracts of the functions listed in the evidence under functions_under_contract, relative to its trusted_base; the rest of the property is covered by a bounded stand-in (labelled bounded, never counted as proved), see DESIGN.md " + c["property"]
    else:
        c["technique"] = "bounded stand-in of the contract (exhaustive small families and random documents and plans against an independent model)"
        c["level"] = "exploration"
        c["level_note"] = "bounded; see DESIGN.md " + c["property"]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(V + "/MANIFEST.json", "a").write("\n")
