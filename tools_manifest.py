#!/usr/bin/env python3
"""Writes MANIFEST.json (one check per property)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ORACLE = {
    "C01": "closed-form reference model",
    "C02": "numerical hemispherical quadrature of projected Legendre series",
    "C03": "published closed forms and sphere/hemisphere quadrature",
    "C04": "numerical Legendre projection",
    "C05": "metamorphic: weighted sums of the constituents",
    "C06": "metamorphic: totals, single contributions and units",
    "C07": "differential: element-by-element scalar evaluation",
    "C08": "complex-step derivative of a reference model",
    "C09": "dense reference Jacobian per fitted scalar",
    "C10": "differential: sympy against symengine",
    "C11": "stateful: operation histories against freshly built models",
    "C12": "metamorphic: equivalent geometries, symmetries",
    "C13": "differential: donated against own coefficients",
    "C14": "differential: original, copy and dump with follow-up operations",
    "C15": "differential: equivalent parameter definitions",
    "C16": "bounds, limits and scaling laws",
    "C17": "expected rejections and recovery",
    "C18": "Gauss-Legendre quadrature of closed forms",
    "C19": "closed forms against plotted data",
    "C20": "stateful: widget histories against fresh models",
    "C21": "differential: interpreters with blocked dependencies",
    "C22": "stateful: model of the logger state",
    "C23": "differential: the same least-squares retrieval with a reference model",
}
ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
doc = {
    "version": 1,
    "setup_cmd": "./check.py --selftest",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"./check.py {i} --tier quick",
            "thorough_cmd": f"./check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": f"property-based testing (Hypothesis, generated inputs with shrinking); oracle: {ORACLE[i]}",
            "level": "exploration",
            "level_note": (
                "Randomised search over generated cases, deterministic in VERIF_SEED; no violation among the "
                "cases counted in the evidence file. Trusts numpy/scipy, Hypothesis and the reference in "
                "rtcheck/ref.py; domain limits are listed in DESIGN.md."
            ),
        }
        for i in ids
    ],
    "not_applicable": [],
    "notes": "One module rtcheck/cNN.py per property; known-findings.txt lists the repaired defects.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
