#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds_spec.py after confirming each change in a scratch copy.
usage: seed.py [id ...] [--notest]"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(HERE, "tools", "seeds_spec.py")).read(), ns)
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
notest = "--notest" in sys.argv
W = "/tmp/seedrepo_%d" % os.getpid()
SH = """#!/bin/bash
# run with cwd = the repository
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export NUMBA_CACHE_DIR="$T/nb" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg MPLCONFIGDIR="$T" OMP_NUM_THREADS=1
timeout 280 /opt/venv/bin/python "$D/demo.py" "$T"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


for s in ns["SEEDS"]:
    if ids and s["id"] not in ids:
        continue
    if not ids and os.path.exists(os.path.join(HERE, "seeded", s["id"])):
        continue
    shutil.rmtree(W, ignore_errors=True)
    assert sh("git clone -q /repo " + W).returncode == 0
    D = W + "_demo"
    shutil.rmtree(D, ignore_errors=True)
    os.makedirs(D)
    open(D + "/demo.sh", "w").write(SH)
    open(D + "/demo.py", "w").write(ns["PRE"] + s["demo"])
    r0 = sh("bash %s/demo.sh" % D, cwd=W)
    bad = None
    for f, old, new in s["edits"]:
        t = open(os.path.join(W, f)).read()
        if t.count(old) != 1:
            bad = "edit does not match once (%d): %s" % (t.count(old), old[:60])
            break
        open(os.path.join(W, f), "w").write(t.replace(old, new))
    if bad:
        print(s["id"], "FAILED", bad)
        continue
    r1 = sh("bash %s/demo.sh" % D, cwd=W)
    ok = r0.returncode == 0 and r1.returncode != 0
    msg = "demo %d/%d %s" % (r0.returncode, r1.returncode, (r1.stderr.strip().splitlines() or [""])[-1][:150])
    if not ok:
        print(s["id"], "FAILED", msg, r0.stderr[-500:])
        continue
    if not notest:
        r = sh("NUMBA_CACHE_DIR=%s_nb PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s MPLBACKEND=Agg OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider pydsge/tests/test_estimation.py pydsge/tests/test_parser.py -k 'test_estimation or test_parsing_yaml' 2>&1 | tail -3" % (W, W), cwd=W)
        if "2 passed" not in r.stdout:
            print(s["id"], "FAILED tests", r.stdout[-300:])
            continue
        msg += " | " + r.stdout.strip().splitlines()[-1]
        sh("git checkout -- pydsge/examples", cwd=W)
    for f, old, new in s["edits"]:
        base = set(sh("git show cfef818:" + f, cwd="/repo").stdout.splitlines())
        touched = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
        if touched and not any(l in base for l in touched):
            print(s["id"], "WARNING: changes only lines which are not in the original repository", f)
    diff = sh("git diff -- " + " ".join(sorted({e[0] for e in s["edits"]})), cwd=W).stdout
    O = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(O, exist_ok=True)
    open(O + "/patch.diff", "w").write(diff)
    for n in ("demo.sh", "demo.py"):
        shutil.copy(D + "/" + n, O + "/" + n)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(O + "/meta.json", "w"), indent=1)
    print(s["id"], "ok", msg)
for d in (W, W + "_demo", W + "_nb"):
    shutil.rmtree(d, ignore_errors=True)
