#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, props.py, the checks' own description, tools/design_tail.md and seeded/ + tools/caught.json."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique=""):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, mech=mech, note=note))


exec(open("props.py").read())
src = open("gen_meta.py").read()
ns = {}
exec("NA = [" + src.split("NA = [")[1].split("\n]\n")[0] + "\n]", ns)


def consts(path):
    """module level constants, without importing the module"""
    res = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            k = n.targets[0].id
            try:
                if isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "dict":
                    res[k] = {x.arg: ast.literal_eval(x.value) for x in n.value.keywords}
                elif isinstance(n.value, ast.Attribute):
                    res[k] = consts("checks/c%02d.py" % int(n.value.value.id[1:]))[n.value.attr]
                else:
                    res[k] = ast.literal_eval(n.value)
            except Exception:
                pass
    return res


out = [open("tools/design_head.md").read().rstrip(), "", "## 2. Properties", "",
       "`Oracle` is what the result of the code is compared with, always an independent statement of the property (the text of the model,",
       "names, defining recursions, labels), never a second copy of the code. Cost is of the quick tier on eight cores.", ""]
costs = json.load(open("tools/costs.json"))
for p in P:
    c = consts("checks/%s.py" % p["id"].lower())
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
            "* **Decided by** " + c.get("EXPLANATION", ""),
            "* **Code** " + "; ".join("`%s` (%s)" % m for m in p["mech"]),
            "* **Bounds** " + "; ".join("%s: %s" % kv for kv in c.get("BOUNDS", {}).items()) + ". " + p["note"],
            "* **Outside** " + ("; ".join(c.get("ASSUMPTIONS", [])) or "nothing beyond the bounds"),
            "* **Cost** %s. **Why not tests:** %s, while the property is about %s." % (costs.get(p["id"], "?"), p["why"], p["text"]), ""]
out += ["## 3. Not applicable", ""]
for n in ns["NA"]:
    out += ["* **%s %s** (%s) %s." % (n[0], n[1], n[2], n[-1])]
out += ["", open("tools/design_tail.md").read().rstrip(), "", "## 6. Planted bugs", "",
        "Each is confirmed by `tools/seed.py` in a scratch copy (applies, builds, passes the stable tests, the demonstration fails with it and passes",
        "without) and tried with `tools/trybug.sh`.", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open("tools/caught.json"))
for s in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % s))
    out += ["| %s | %s | %s: %s | %s |" % (s, m["property"], m["needs"], m["what_it_breaks"], caught.get(s, "not tried"))]
open("DESIGN.md", "w").write("\n".join(out) + "\n")
