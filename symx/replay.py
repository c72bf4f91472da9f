"""Replays a solver assignment on the unpatched code of /repo (numba on, real numpy)."""

import json
import os
import random
import sys
import tempfile
import shutil
import traceback
import warnings


def one(inst, inputs):
    from symx.ctx import ConcCtx, Skip

    c = ConcCtx(inputs)
    try:
        inst["fn"](c, **inst.get("kw", {}))
    except Skip:
        if not c.failures:
            return None, c
    except Exception:
        tb = traceback.format_exc()
        c.fail("exception", tb[-1200:])
    return c.failures, c


def main():
    from symx import run

    f = json.load(open(sys.argv[1]))
    own = "VERIF_SCRATCH" not in os.environ
    scratch = tempfile.mkdtemp(prefix="symx_") if own else os.environ["VERIF_SCRATCH"]
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        run.setup_env(scratch, jit=os.environ.get("VERIF_REPLAY_JIT", "1") == "1")
        warnings.simplefilter("ignore")
        real_out = sys.stdout
        sys.stdout = open(os.devnull, "w")
        mod = run.load_check(f["property"])
        inst = [i for i in mod.instances(f.get("tier", "quick")) if i["name"] == f["instance"]][0]
        pts = list(f.get("points", [])) if "points" in f else [f["inputs"]]
        if "points" in f:
            pts.append({})
            rnd = random.Random(f.get("seed", 1))
            for _ in range(f.get("random", 0)):
                d = {}
                for k, (kind, lo, hi) in f.get("kinds", {}).items():
                    sc = rnd.choice((1, 0.3, 0.1))
                    d[k] = rnd.randint(lo, hi) if kind == "int" else min(max(rnd.uniform(lo, hi) * sc, lo), hi)
                pts.append(d)
        bad = 0
        for p in pts:
            fails, c = one(inst, p)
            if fails:
                for l, d in fails[:5]:
                    print("REPRODUCED %s: %s" % (l, d.replace("\n", " / ")), file=real_out)
                print("inputs: %s" % json.dumps(p), file=real_out)
                bad = 1
                break
            print("NOT-REPRODUCED%s" % (" (outside the assumed region)" if fails is None else ""), file=real_out)
        real_out.flush()
    finally:
        if own:
            shutil.rmtree(scratch, ignore_errors=True)
    os._exit(bad)


if __name__ == "__main__":
    main()
