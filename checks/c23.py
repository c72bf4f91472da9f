"""C23: expected trajectories are those of the transition function under the current parameters."""

import contextlib
import io

import numpy as np

from . import models as MM
from .c06 import follow, setup

LEVEL = "other"
EXPLANATION = (
    "traj and k_map are executed on symbolic states and shocks, for all durations, also after the parameters were changed and the limits were changed. The value of the constraint equation is computed independently from the text of the model along the path of t_func under these durations; "
    "z3 decides that traj gives this value in every period (with the endogenous durations if none are given) and that k_map gives its distance to the bound at the end of each candidate spell."
)
BOUNDS = dict(states="|x|<=5", shocks="|eps|<=5", durations="l<=2, k<=2 (quick), l<=3, k<=5 (thorough)", history="an evaluation at other parameters or limits before", models="see instances")
ASSUMPTIONS = ["real arithmetic on the compiled matrices"]
TOL = 1e-6


def h_traj(ctx, name, lmax=2, kmax=2, what="traj", change=True, endo=False, zero=False):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, lmax, kmax)
    par = dict(spec.par0)
    quiet = contextlib.redirect_stdout(io.StringIO())
    how = ctx.choice("before", ("nothing", "other", "limits")) if change else "nothing"
    if how != "nothing":
        # a trajectory at other parameters, then the ones of interest
        first = dict(par)
        if how == "other":
            first.update(MM.ALT[name])
        with MM.concretely():
            m.set_par([first[k] for k in m.par_names], l_max=lmax, k_max=kmax + (how == "limits"))
            with contextlib.redirect_stdout(io.StringIO()):
                m.traj(np.zeros(m.dimq), l=0, k=1, verbose=False)
            m.set_par([par[k] for k in m.par_names], l_max=lmax, k_max=kmax)
    env = spec.params(par)
    P, st = MM.history(ctx, m, spec, 5.0, zero=zero)
    P.eps[0] = eps = ctx.vec("eps", len(spec.shocks), -5, 5)
    nq = m.dimq - m.dimeps
    s = np.hstack((np.asarray(st)[len(m.vv) - nq:], np.asarray(eps)))
    s0 = s.copy()
    xb = env["x_bar"]

    def shadows(l, k, T):
        Q = follow(m, spec, P, st, eps, l, k, T + 4)
        return [spec.shadow(env, Q.at(t)) for t in range(T)]

    with quiet:
        if what == "traj":
            if endo:
                l, k = m.t_func(st, eps, return_k=True)[1]
                res = m.traj(s)
                ctx.cover("spell" if k else "slack")
            else:
                l, k = ctx.choice("lk", [(l, k) for l in range(lmax + 1) for k in range(kmax + 1)])
                res = m.traj(s, l=l, k=k, verbose=False)
            ref = shadows(l, k, len(res))
            ctx.check("long enough to cover the spell", len(res) > l + k)
            ctx.close("the trajectory is that of the model", np.asarray(res), np.array(ref, dtype=object if ctx.symbolic else float), TOL)
        else:
            if endo:
                l, k = m.t_func(st, eps, return_k=True)[1]
                LS, KS = m.k_map(s)
                ctx.cover("spell" if k else "slack")
            else:
                l, k = ctx.choice("lk", [(l, k) for l in range(lmax + 1) for k in range(kmax + 1)])
                LS, KS = m.k_map(s, l=l, k=k, verbose=False)
            ctx.check("all candidates up to the limits", len(LS) >= lmax and len(KS) >= kmax)
            for i in range(len(LS)):
                ctx.close("distance to the bound after spells of this length that start later", LS[i], shadows(i, k, i + k + 1)[-1] - xb, TOL)
            for i in range(len(KS)):
                ctx.close("distance to the bound after longer spells", KS[i], shadows(l, i, l + i + 1)[-1] - xb, TOL)
    ctx.close("the state is not modified", s, s0, 0)
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(inst, cov=("done",), **kw):
        out.append(dict(name=inst, fn=h_traj, kw=kw, budget=200 if q else 900, must_cover=list(cov)))

    lm, km = (2, 2) if q else (3, 5)
    for what in ("traj", "k_map"):
        for n in ("nk", "nk3", "conshock", "hybcon", "norm", "ma", "square") if q else list(MM.M):
            add("%s/%s" % (what, n), name=n, what=what, lmax=lm, kmax=km, change=n in ("nk", "norm", "square") or not q)
        for n in ("nk", "conshock", "square"):
            add("%s/%s/endogenous" % (what, n), name=n, what=what, lmax=2, kmax=2 if q else 3, change=False, endo=True, zero=n == "conshock", cov=("done", "spell", "slack"))
    return out
