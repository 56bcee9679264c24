#!/usr/bin/env python3-vt
"""Regenerates properties.jsonl and MANIFEST.json from the tables below and
from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine/py")
I = "include/sleipnir/"
EXP, GR, VAR, VM, VB = I + "autodiff/expression.hpp", I + "autodiff/expression_graph.hpp", I + "autodiff/variable.hpp", I + "autodiff/variable_matrix.hpp", I + "autodiff/variable_block.hpp"
GT, GRD, JAC, HES, SL = I + "autodiff/expression_graph.hpp", I + "autodiff/gradient.hpp", I + "autodiff/jacobian.hpp", I + "autodiff/hessian.hpp", I + "autodiff/slice.hpp"
PR, OCP, BND, MS = I + "optimization/problem.hpp", I + "optimization/ocp.hpp", I + "optimization/solver/util/bounds.hpp", I + "optimization/multistart.hpp"
SV = I + "optimization/solver/"
UT = SV + "util/"
IPM, SQP, NEW = SV + "interior_point.hpp", SV + "sqp.hpp", SV + "newton.hpp"
U = I + "util/"

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


exec(open(V + "/tools/props.py").read())


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    import frame
    sys.modules["frame"] = frame
    import checks
    ids = [d["id"] for d in P]
    bad = [k for k in frame.CHECKS if k not in ids]
    assert not bad, bad
    out = {"version": 1, "setup_cmd": "python3-vt engine/setup.py", "checks": [], "not_applicable": [],
           "notes": "All checks share one engine: a clang LibTooling extractor (engine/extract) turns /repo's current headers, instantiated by engine/tu, into a type-resolved program; engine/py evaluates every anchored function abstractly (gated value numbering with loop summaries) and compares normal forms with the rule of the property. Nothing of /repo is executed."}
    for i in ids:
        if i in frame.CHECKS:
            fn, meta = frame.CHECKS[i]
            out["checks"].append({"property": i, "quick_cmd": "python3-vt engine/run.py " + i, "thorough_cmd": "python3-vt engine/run.py %s --thorough" % i,
                                  "technique": meta.get("technique") or "static analysis: abstract interpretation (value numbering) of the resolved program, normal-form comparison",
                                  "level": meta["level"], "level_note": meta["rule"][:900]})
        else:
            out["not_applicable"].append({"property": i, "reason": NA.get(i, "No check built yet.")})
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(out, f, indent=1)
    print(len(P), "properties;", len(out["checks"]), "checks;", len(out["not_applicable"]), "not applicable")


main()
