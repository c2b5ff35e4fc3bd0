"""Write MANIFEST.json from the registered checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from rtsa.checks import CHECKS, NOTES  # noqa

NA = {
    "C34": "Accuracy of a sum of floating point special functions for up to 20 orders is a "
           "quantitative statement about rounding errors and the conditioning of an "
           "alternating series; no syntactic or dataflow fact bounds it.",
    "C35": "Floating point agreement of two external code generators (sympy / symengine "
           "lambdify); the generated code is not part of the analysed source.  That both "
           "are given the same expression is decided under C04, C12, C23.",
    "C36": "Convergence of an iterative optimiser on simulated data is a numerical run-time "
           "property.  The exactness of the jacobian it uses is decided under C07-C09.",
    "C37": "Needs bounds on hemispherical integrals of the total intensity over all "
           "parameter values, i.e. an inequality over transcendental functions that the "
           "first-order approximation does not even guarantee; not decidable from the shape "
           "of the code.",
    "C38": "A statement about run time; static analysis of the source gives no timing.",
}

TECH = ("static analysis: whole-package abstract interpretation of the syntax tree (gated "
        "value numbering with algebraic normal forms, abstract heap and effects); ")

checks = []
for prop in sorted(CHECKS):
    note = NOTES[prop]
    checks.append({
        "property": prop,
        "quick_cmd": f"python3-vt -m rtsa check {prop}",
        "thorough_cmd": f"python3-vt -m rtsa check {prop} --tier thorough",
        "technique": TECH + note[0],
        "level": "other",
        "level_note": note[1],
    })
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "no check has been built for this property")}
      for p in props if p not in CHECKS]
man = {"version": 1, "setup_cmd": "python3-vt -c 'import sympy, rtsa'", "checks": checks,
       "not_applicable": na,
       "notes": "All checks analyse /repo/src from source on every run; nothing of "
                "rt1_model is imported or executed."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
