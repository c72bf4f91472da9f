#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique="symbolic execution of the real Python code, z3 decides every path and assertion, counterexamples replayed"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique))


exec(open(os.path.join(HERE, "props.py")).read())

NA = [
    ("N03", "The ensemble filter approximates the exact likelihood",
     "The likelihood and the smoothed states of the nonlinear filter converge to the true ones with the size of the ensemble.",
     ["inputs"], "all data, parameters and random draws", "tests compare one number",
     ["pydsge/filtering.py"], [("run_filter", "pydsge/filtering.py")],
     "a statement about the limit of a Monte Carlo method implemented in the dependency econsieve; no bounded assertion over symbolic inputs expresses it"),
    ("N04", "Indeterminate or explosive parameterisations are rejected",
     "For every parameter vector without a unique stable solution an error is raised, and for every other vector the solution is returned.",
     ["inputs"], "all parameter vectors", "tests use determinate models only",
     ["pydsge/gensys.py"], [("gen_sys", "pydsge/gensys.py")],
     "the decision is taken inside the generalised Schur decomposition of the dependency grgrlib (LAPACK ordqz) from eigenvalues of a symbolic pencil; LAPACK has no encoding in reach, and with concrete matrices nothing is left to solve for"),
    ("N05", "The generators of the prior follow the declared distributions",
     "Parameter vectors drawn from the prior are distributed as declared in the model file, conditional on the model having a solution.",
     ["inputs"], "all seeds and prior declarations", "tests do not draw",
     ["pydsge/mpile.py"], [("prior_sampler", "pydsge/mpile.py")],
     "a distributional statement about pseudo random numbers and scipy.stats; not an assertion over symbolic values"),
]

LEVEL = "other"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        if not os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            continue
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    for id, title, st, over, text, why, files, mech, reason in NA:
        f.write(json.dumps(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))) + "\n")

man = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in P:
    if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
        man["checks"].append(dict(property=p["id"], quick_cmd="./check.sh %s --tier quick" % p["id"], thorough_cmd="./check.sh %s --tier thorough" % p["id"], technique=p["technique"], level=LEVEL, level_note=p["note"]))
for id, title, st, over, text, why, files, mech, reason in NA:
    man["not_applicable"].append(dict(property=id, reason=reason))
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks")
