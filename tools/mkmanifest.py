#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist and the list of properties."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
NA = {
    "C35": "minimality of the search result is an optimality claim over all graphs; it follows from a proof about the search tree and its bounds (k grows only after every alternative failed, reductions are sound), a functional-correctness argument that no dataflow, typing or effect rule over the source expresses",
    "C36": "completeness and absence of duplicates of a recursive enumeration is an inductive functional-correctness proof over bitset states; no static abstraction in reach distinguishes a missed clique from a correct prune",
    "C37": "equality with the textbook double centring is an algebraic identity over n-by-n sums of data (and the code deliberately computes a condensed half); deciding it is symbolic algebra over an unbounded dimension, not a dataflow fact. What static analysis can see of it (units, symmetry, shapes, no aliasing) is decided under C01, C04, C05 and C16",
    "C38": "calibration and consistency quantify over probability distributions and sample sizes; no property of the source text alone bounds them",
    "C39": "termination of the searches needs a ranking argument over recursive graph reductions whose decrease depends on runtime graph contents (clique counts, uncovered edges); no sound static size-change argument in reach covers it",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
            m = importlib.import_module("checks." + pid.lower())
            checks.append({
                "property": pid,
                "quick_cmd": f"python3 run.py {pid}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {pid} --thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": getattr(m, "TECHNIQUE", "static analysis by abstract interpretation of the source: " + m.RULE.split(".")[0]),
                "level": "other",
                "level_note": "sound for the modelled Python/numpy/torch subset on the analysed public entry points; obligations that leave it are "
                              "counted as undecided in the evidence and never reported as violations. Assumes: " + ("; ".join(getattr(m, "ASSUMES", [])) or "the library models of sa/"),
            })
        else:
            na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
    out = {"version": 1, "setup_cmd": "python3 -c 'import ast, json'", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
