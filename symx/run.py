"""Runs the check of one property: explore every instance, replay candidates, write evidence."""

import argparse
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable


def setup_env(scratch, jit):
    os.environ.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=scratch, OMP_NUM_THREADS="1", NUMBA_CACHE_DIR=os.path.join(scratch, "nb"))
    os.environ["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    if not jit:
        from symx import strings

        strings.install()


def quiet():
    d = os.open(os.devnull, os.O_WRONLY)
    os.dup2(d, 1)
    os.dup2(d, 2)


def load_check(prop):
    return importlib.import_module("checks.%s" % prop.lower())


class Profile:
    """names of the pydsge functions executed symbolically (first path only)"""

    def __init__(self):
        self.names = set()

    def __call__(self, frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(REPO):
                self.names.add("%s:%s" % (os.path.relpath(fn, REPO), frame.f_code.co_qualname))


def run_symbolic(prop, inst, seed, debug=False):
    import random
    import warnings

    import numpy as np

    from symx import core, npshim
    from symx.ctx import SymCtx

    warnings.simplefilter("ignore")
    random.seed(seed)
    np.random.seed(seed)
    npshim.install()
    t0 = time.time()
    eng = core.Engine(timeout_ms=inst.get("query_ms", 30000), deadline=t0 + inst.get("budget", 120), max_paths=inst.get("max_paths", 100000))
    ctx = SymCtx(eng)
    prof = Profile()
    out = dict(name=inst["name"], status="ok", error="", exc=[])

    def body():
        first = eng.stats["paths"] == 0
        if first:
            sys.setprofile(prof)
        try:
            inst["fn"](ctx, **inst.get("kw", {}))
        except core.Unsupported as e:
            ex = traceback.format_exc(limit=-4)
            out["status"] = "unsupported"
            out["error"] = "%s @ %s" % (e, ex[-600:])
            raise core.Budget("unsupported")
        except Exception as e:
            # the code (or numpy on terms) raised: decide by replaying a value of this path
            tb = traceback.format_exc(limit=-6)
            if debug:
                traceback.print_exc()
            if len(out["exc"]) < 3:
                core.ENG = eng
                m = eng.feasible_model()
                n = len(ctx.cands)
                ctx._candidate("exception", ctx.z3.BoolVal(True), None, tb[-800:])
                if len(ctx.cands) == n and m is not None:
                    ctx.cands.append(dict(label="exception", detail=tb[-800:], inputs=ctx._values(m)))
                if len(ctx.cands) > n:
                    out["exc"].append(len(ctx.cands) - 1)
            else:
                raise core.Budget("too many exceptions")
        finally:
            if first:
                sys.setprofile(None)

    try:
        eng.explore(body)
    except core.Budget as e:
        if out["status"] == "ok":
            out["status"] = "partial"
            out["error"] = str(e)
    core.ENG = None
    out.update(stats=eng.stats, cands=ctx.cands, covers=eng.covers, labels=ctx.labels, functions=sorted(prof.names), realised=sorted(set(eng.realised_at))[:10], wall=time.time() - t0, kinds={k: v for k, v in ctx.kinds.items()})
    if out["status"] == "ok":
        if eng.stats.get("undecided"):
            out["status"] = "undecided"
            out["error"] = "%d assertions: solver returned unknown" % eng.stats["undecided"]
        elif eng.stats["realised"]:
            out["status"] = "concretised"
            out["error"] = "symbolic value concretised at %s" % out["realised"]
        elif not eng.stats["completed"]:
            out["status"] = "vacuous"
            out["error"] = "no path reached the end"
        else:
            miss = [c for c in inst.get("must_cover", ()) if c not in eng.covers]
            if miss:
                out["status"] = "vacuous"
                out["error"] = "not reached: %s" % miss
    return out


def _worker(prop, inst, seed, conn):
    try:
        quiet()
        conn.send(run_symbolic(prop, inst, seed))
    except BaseException as e:
        conn.send(dict(name=inst["name"], status="crash", error=traceback.format_exc()[-1500:], cands=[], stats={}, covers={}, labels={}, functions=[], realised=[], wall=0.0, exc=[], kinds={}))
    finally:
        conn.close()
        os._exit(0)


def run_pool(prop, insts, seed, jobs, total_deadline):
    ctx = mp.get_context("fork")
    todo = sorted(insts, key=lambda i: -i.get("budget", 120) * i.get("weight", 1))
    running, done = [], []
    while todo or running:
        while todo and len(running) < jobs:
            inst = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(prop, inst, seed, b))
            p.start()
            b.close()
            running.append((inst, p, a, time.time()))
        time.sleep(0.02)
        still = []
        for inst, p, a, t0 in running:
            if a.poll():
                try:
                    done.append(a.recv())
                except EOFError:
                    done.append(dict(name=inst["name"], status="crash", error="worker died", cands=[], stats={}, covers={}, labels={}, functions=[], realised=[], wall=time.time() - t0, exc=[], kinds={}))
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif time.time() - t0 > inst.get("budget", 120) + 60 or time.time() > total_deadline:
                p.kill()
                p.join()
                done.append(dict(name=inst["name"], status="timeout", error="killed after %.0fs" % (time.time() - t0), cands=[], stats={}, covers={}, labels={}, functions=[], realised=[], wall=time.time() - t0, exc=[], kinds={}))
            else:
                still.append((inst, p, a, t0))
        running = still
    order = {i["name"]: n for n, i in enumerate(insts)}
    return sorted(done, key=lambda d: order[d["name"]])


def run_replay(path, scratch, timeout=240, jit=True):
    env = dict(os.environ, VERIF_SCRATCH=scratch, VERIF_REPLAY_JIT="1" if jit else "0")
    try:
        r = subprocess.run([PY, "-m", "symx.replay", path], cwd=HERE, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "replay timed out"
    txt = r.stdout + r.stderr
    if r.returncode == 1 and "REPRODUCED" in r.stdout:
        return True, txt
    if r.returncode == 0:
        return False, txt
    return None, txt


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                # known: property=<id> key=<instance glob>|<label> <text>
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                inst, label = key[len("key="):].split("|", 1)
                out.append((inst, label.replace("~", " "), text))
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="run every harness on concrete points of the unpatched code as well")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="symx_")
    try:
        sys.exit(check(a, seed, t0, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(a, seed, t0, scratch):
    import fnmatch

    prop, tier = a.prop, a.tier
    setup_env(scratch, jit=False)
    os.environ["VERIF_SCRATCH"] = scratch
    total = float(os.environ.get("VERIF_TOTAL_S", "600" if tier == "quick" else "3000"))
    import symx  # noqa
    mod = load_check(prop)
    # the code under test is imported once here; exceptions at import are the tree's own
    so = os.dup(1)
    buf = io.StringIO()
    insts = mod.instances(tier)
    names = [i["name"] for i in insts]
    assert len(set(names)) == len(names), "duplicate instance names"
    if a.only:
        insts = [i for i in insts if fnmatch.fnmatch(i["name"], a.only)]
    if a.debug:
        res = [run_symbolic(prop, i, seed, debug=True) for i in insts]
    else:
        res = run_pool(prop, insts, seed, a.jobs, t0 + total)

    replays = os.path.join(HERE, "replays", prop)
    shutil.rmtree(replays, ignore_errors=True)
    os.makedirs(replays, exist_ok=True)
    known = known_findings(prop)
    violations, unreproduced, known_hit = [], [], []
    t_replay = time.time()
    for r in res:
        hit = False
        notes = []
        for n, c in enumerate(r["cands"]):
            if hit or (len(violations) >= 3) or time.time() - t_replay > 420:
                break
            f = os.path.join(replays, "%s_%d.json" % (r["name"].replace("/", "_"), n))
            json.dump(dict(property=prop, tier=tier, instance=r["name"], label=c["label"], detail=c["detail"], inputs=c["inputs"], how="cd /verif && ./replay.sh %s" % f), open(f, "w"), indent=1)
            ok, txt = run_replay(f, scratch)
            if ok:
                hit = True
                kf = [k for k in known if fnmatch.fnmatch(r["name"], k[0]) and (k[1] == "*" or "REPRODUCED %s:" % k[1] in txt)]
                if kf:
                    known_hit.append((kf[0], f))
                else:
                    violations.append((r["name"], c["label"], f, [l for l in txt.splitlines() if l.startswith("REPRODUCED")][:3]))
            else:
                notes.append("%s: %s" % (c["label"], (txt or "").strip().splitlines()[-1:] if txt else ""))
        if r["cands"] and not hit and len(violations) < 3:
            r["status"] = "unsupported" if r["exc"] else "unreproduced"
            r["error"] = "candidate(s) did not reproduce on the unpatched code: " + "; ".join(notes)[:1000] + " | " + r["cands"][0]["detail"][-400:]
    # instances which could not be decided symbolically: exercise the real code at solver/seeded points
    undec = [r for r in res if r["status"] != "ok" or a.selftest]
    if undec and not violations and not a.debug:
        from concurrent.futures import ThreadPoolExecutor

        def fb(r):
            left = total - (time.time() - t0)
            if left < 20:
                return r, None, None, "no time left"
            pts = [c["inputs"] for c in r["cands"]]
            f = os.path.join(replays, "%s_fallback.json" % r["name"].replace("/", "_"))
            json.dump(dict(property=prop, tier=tier, instance=r["name"], label="fallback", detail="concrete points", inputs={}, points=pts, kinds=r["kinds"], random=12, seed=seed, how="cd /verif && ./replay.sh %s" % f), open(f, "w"), indent=1)
            ok, txt = run_replay(f, scratch, timeout=min(180, left))
            return r, f, ok, txt

        with ThreadPoolExecutor(a.jobs) as ex:
            fbs = list(ex.map(fb, undec))
        for r, f, ok, txt in fbs:
            r["fallback"] = {True: "violation", False: "quiet on the sampled points (not a verdict)", None: "no answer"}[ok]
            if ok:
                kf = [k for k in known if fnmatch.fnmatch(r["name"], k[0]) and (k[1] == "*" or "REPRODUCED %s:" % k[1] in txt)]
                if kf:
                    known_hit.append((kf[0], f))
                elif len(violations) < 3:
                    violations.append((r["name"], "fallback", f, [l for l in txt.splitlines() if l.startswith("REPRODUCED")][:3]))
            elif ok is None:
                if a.selftest:
                    print("SELFTEST no answer:", r["name"], (txt or "")[-600:])
                r["fallback_out"] = (txt or "")[-800:]

    agg = {}
    for r in res:
        for k, v in r["stats"].items():
            agg[k] = agg.get(k, 0) + v
    funcs = sorted({f for r in res for f in r["functions"]})
    decided = [r for r in res if r["status"] == "ok"]
    samples = []
    for r in res[:4]:
        samples.append(dict(instance=r["name"], status=r["status"], paths=r["stats"].get("paths"), assertions=r["stats"].get("checks"), labels=r["labels"], covers=r["covers"], inputs={k: v for k, v in list(r["kinds"].items())[:12]}))
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "other"),
        coverage=dict(
            explanation=mod.EXPLANATION,
            bounds=mod.BOUNDS,
            functions_encoded=funcs,
            instances=len(res), instances_decided=len(decided),
            not_decided=[dict(instance=r["name"], status=r["status"], why=r["error"][:500], fallback=r.get("fallback", "")) for r in res if r["status"] != "ok"],
            paths_explored=agg.get("paths", 0), paths_completed=agg.get("completed", 0), forks=agg.get("forks", 0),
            assertions=agg.get("checks", 0), assertions_discharged=agg.get("discharged", 0), assertions_trivial=agg.get("trivial", 0),
            solver_queries=agg.get("queries", 0), queries_unsat=agg.get("unsat", 0), queries_sat=agg.get("sat", 0), queries_unknown=agg.get("unknown", 0),
            solver_s=round(agg.get("solver_s", 0.0), 2),
            candidates_replayed=sum(len(r["cands"]) for r in res),
            known_findings=[k[0][2] for k in known_hit],
            evaluations=agg.get("paths", 0), distinct_nontrivial=agg.get("completed", 0),
            rule="one evaluation is one path of the real code explored symbolically (a set of inputs described by its path condition); it is non-trivial if it is feasible and reaches the end of the harness",
            samples=samples,
            per_instance=[dict(name=r["name"], status=r["status"], paths=r["stats"].get("paths", 0), checks=r["stats"].get("checks", 0), queries=r["stats"].get("queries", 0), solver_s=round(r["stats"].get("solver_s", 0), 2), wall_s=round(r["wall"], 2), covers=r["covers"]) for r in res],
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    for r in res:
        if r["status"] != "ok":
            print("INCONCLUSIVE instance=%s status=%s %s %s" % (r["name"], r["status"], r["error"] if a.v else r["error"][:300].replace("\n", " "), r.get("fallback", "")))
            if a.v:
                print(r.get("fallback_out", ""))
        if a.v:
            print("  %-40s %-12s paths=%-5s checks=%-5s queries=%-6s solver=%.1fs wall=%.1fs %s" % (r["name"], r["status"], r["stats"].get("paths"), r["stats"].get("checks"), r["stats"].get("queries"), r["stats"].get("solver_s", 0), r["wall"], r["covers"]))
    seen = set()
    for k, f in known_hit:
        if k not in seen:
            seen.add(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    print("%s %s: %d/%d instances decided, %d paths, %d assertions (%d discharged), %d queries, solver %.1fs, wall %.1fs" % (prop, tier, len(decided), len(res), ev["coverage"]["paths_explored"], ev["coverage"]["assertions"], ev["coverage"]["assertions_discharged"], ev["coverage"]["solver_queries"], ev["coverage"]["solver_s"], ev["wall_s"]))
    for name, label, f, lines in violations:
        print("  violated in %s: %s %s" % (name, label, " | ".join(lines)))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    if violations:
        return 1
    if not decided and not known_hit:
        print("no instance could be decided by the solver")
        if any(not r.get("fallback", "").startswith("quiet") for r in res):
            return 2
    return 0


if __name__ == "__main__":
    main()
