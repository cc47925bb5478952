"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkprops
from registry import CHECKS, NOT_APPLICABLE
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = ("Quint behaviours (exact integer arithmetic, invariants checked in every state) replayed into the real code with the "
        "projected state compared after every action; random exploration of the specification within stated bounds, so "
        "assurance is for the explored behaviours. Trusts Quint's evaluator, the unnormalised-to-orthonormal conversion in "
        "harness/conv.py and floating-point comparison tolerances. ")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": c, "quick_cmd": f"./check {c} quick", "thorough_cmd": f"./check {c} thorough",
                 "technique": "Quint model, spec behaviours replayed into the code (MBT conformance)",
                 "level": "model_checking", "level_note": NOTE + note} for c, (mod, note) in sorted(CHECKS.items())],
     "not_applicable": [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check not built yet")}
                        for p in mkprops.P if p["id"] not in CHECKS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
