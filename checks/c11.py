"""C11: historic decompositions add up to the path and attribute linear effects to the shock that caused them."""

import numpy as np
import pandas as pd

from pydsge import sort_nhd
from . import models as MM
from .c10 import vec_of

LEVEL = "other"
EXPLANATION = (
    "nhd is executed with symbolic initial states and innovations (T=1..3). On every path (combination of spells) z3 decides that the contributions of the shocks sum to the path, that the path is the one the transition function implies, "
    "and that each contribution is the linear response to its own shock as long as no spell occurred. sort_nhd is executed on symbolic contributions: the stacked bands have to reproduce the positive and the negative contributions."
)
BOUNDS = dict(states="|x|<=4", shocks="|eps|<=4", T="1 to 3 periods", samples="1 or 2", models="see instances", excluded="periods in a spell in which the total contribution to the constraint is below 1e-3 in absolute value (attribution undefined at zero)")
ASSUMPTIONS = ["real arithmetic (exact coefficients) ", "system matrices compiled concretely"]
B = 4.0
TOL = 1e-6


def h_nhd(ctx, name, T=2, pars=(None,), linear=False, zero=False, kmax=2):
    ctx.mode(exact=True, poly=False)
    spec = MM.Spec(name)
    m = MM.model(name, None, 2, kmax)
    ne, nx, n = len(m.shocks), len(m.vv), len(pars)
    P = np.array([vec_of(m, p) for p in pars])
    X0 = np.array([np.zeros(nx) if zero else ctx.vec("x%d" % i, nx, -B, B) for i in range(n)])
    E = np.array([ctx.mat("eps%d" % i, T, ne, -B, B) for i in range(n)])
    if not ctx.symbolic:
        X0, E = X0.astype(float), E.astype(float)
    m.data = pd.DataFrame(np.zeros((T + 1, len(m.observables))), index=["q%d" % t for t in range(T + 1)], columns=m.observables)
    # the implied path
    dt = object if ctx.symbolic else float
    X = np.zeros((n, T + 1, nx), dtype=dt)
    lin = np.zeros((n, ne, T + 1, nx), dtype=dt)
    spell = np.zeros((n, T), dtype=bool)
    for i in range(n):
        m.set_par(list(P[i]))
        env = spec.params(dict(zip(m.par_names, P[i])))
        X[i, 0] = X0[i]
        for s in range(ne):
            lin[i, s, 0] = X0[i] / ne
        for t in range(T):
            X[i, t + 1], (l, k), _ = m.t_func(X[i, t], E[i, t], return_k=True, linear=linear)
            spell[i, t] = k > 0
            if k:
                ctx.cover("spell")
                # total contribution to the constraint in this period
                a, b = MM.Path(spec, m.vv), MM.Path(spec, m.vv)
                a.X[-1], a.X[0], a.eps[0] = X[i, t], X[i, t + 1], E[i, t]
                b.X[-1], b.X[0], b.eps[0] = np.zeros(nx), m.t_func(np.zeros(nx), None, set_k=(l, k))[0], np.zeros(ne)
                tot = spec.shadow(env, a.at(0)) - spec.shadow(env, b.at(0))
                ctx.assume(ctx.or_(tot > 1e-3, tot < -1e-3))
            for s in range(ne):
                e = np.array([E[i, t, j] if j == s else 0.0 for j in range(ne)], dtype=object if ctx.symbolic else float)
                lin[i, s, t + 1] = m.t_func(lin[i, s, t], e, linear=True)[0]
    hd, means = m.nhd(dict(pars=P, resid=E, init=X0), linear=linear)
    ctx.check("one table per shock", len(hd) == ne and all(list(h.columns) == list(m.vv) and h.shape == (T + 1, nx) and list(h.index) == list(m.data.index) for h in list(hd) + [means]))
    tot = sum(np.asarray(h.to_numpy()) for h in hd)
    mu = means.to_numpy()
    for t in range(T + 1):
        ctx.close("the path is the one implied by the shocks", mu[t], X[:, t].sum(axis=0) / n, TOL)
        ctx.close("contributions add up to the path", tot[t], mu[t], TOL)
        if not spell[:, :t].any():
            for s in range(ne):
                ctx.close("without a spell contributions are linear responses", hd[s].to_numpy()[t], lin[:, s, t].sum(axis=0) / n, TOL)
    ctx.cover("done")


def h_sort(ctx, n=3, m=2):
    H = [ctx.mat("h%d" % i, m, 1, -3, 3) for i in range(n)]
    keep = [h.copy() for h in H]
    lo, hi = sort_nhd(H)
    ctx.check("one band per contribution", len(lo) == n and len(hi) == n)
    pos = [np.array([[(e if bool(e > 0) else 0.0) for e in r] for r in h]) for h in H]
    neg = [np.array([[(e if bool(e < 0) else 0.0) for e in r] for r in h]) for h in H]
    cp, cn = np.zeros((m, 1)), np.zeros((m, 1))
    for i in range(n):
        ctx.check("bands have a lower and an upper edge", np.shape(hi[i]) == (2, m, 1) and np.shape(lo[i]) == (2, m, 1))
        ctx.close("positive bands are stacked", hi[i][0], cp, 1e-9)
        cp = cp + pos[i]
        ctx.close("positive bands have the size of the contribution", hi[i][1], cp, 1e-9)
        ctx.close("negative bands are stacked", lo[i][0], cn, 1e-9)
        cn = cn + neg[i]
        ctx.close("negative bands have the size of the contribution", lo[i][1], cn, 1e-9)
    ctx.close("positive and negative bands add up to the total", np.asarray(hi[-1][1]) + np.asarray(lo[-1][1]), sum(np.asarray(h) for h in keep), 1e-9)
    ctx.close("contributions are not modified", np.hstack([h.reshape(-1) for h in H]), np.hstack([h.reshape(-1) for h in keep]), 0)
    ctx.cover("done")


def instances(tier):
    out = []

    def add(iname, budget=100, cov=("done",), **kw):
        out.append(dict(name=iname, fn=h_nhd, kw=kw, budget=budget if tier == "quick" else budget * 6, must_cover=list(cov)))

    for n in ("nk3", "conshock", "norm", "hybrid", "dfi", "ma"):
        add("linear/" + n, name=n, T=3, pars=(None, MM.ALT[n]), linear=True)
    q = tier == "quick"
    add("endo/nk", name="nk", T=2, cov=("done", "spell"))
    add("endo/conshock", name="conshock", T=1, zero=True, cov=("done", "spell"))
    add("endo/norm", name="norm", T=1, zero=q, cov=("done", "spell"))
    add("endo/norm/2", name="norm", T=2, zero=True, kmax=1, cov=("done", "spell"))
    add("endo/hybrid", name="hybrid", T=1, zero=q, cov=("done", "spell"))
    add("endo/ma", name="ma", T=1, zero=q, cov=("done", "spell"))
    if not q:
        for n in ("nk3", "conshock", "leads", "lags", "dfi"):
            add("endo2/" + n, name=n, T=2, zero=True, cov=("done", "spell"))
    out.append(dict(name="sort/3", fn=h_sort, kw=dict(n=3, m=1), budget=60, must_cover=["done"]))
    out.append(dict(name="sort/2x2", fn=h_sort, kw=dict(n=2, m=2), budget=60, must_cover=["done"]))
    return out
