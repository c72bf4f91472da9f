"""C12: forecast error variance decompositions are shares that reflect the responses to each shock alone."""

import numpy as np
import pandas as pd

from . import models as MM
from .c10 import vec_of

LEVEL = "other"
EXPLANATION = (
    "gfevd is executed on symbolic innovations and states (one or two draws, one or two parameter vectors). For every variable and shock z3 decides that the returned share times the total equals the sum over draws of the squared difference between the response "
    "to that shock alone and the response to no shock (computed with the transition function), that shares are between zero and one and that they sum to one."
)
BOUNDS = dict(shocks="|eps|<=2 and at least 0.1 in absolute value", states="|x|<=2", draws="1 or 2", horizon="1 to 4 (1 with endogenous durations)", models="see instances", excluded="variables that respond to no shock (the share is undefined)")
ASSUMPTIONS = ["real arithmetic (exact coefficients)", "system matrices compiled concretely"]
TOL = 1e-6


def h_fevd(ctx, name, draws=1, horizon=1, pars=(None,), linear=True, kmax=1, zero=True):
    ctx.mode(exact=True, poly=False)
    m = MM.model(name, None, 2, kmax)
    ne, nx, n = len(m.shocks), len(m.vv), len(pars)
    P = np.array([vec_of(m, p) for p in pars])
    E = np.array([ctx.mat("eps%d" % i, draws, ne, -2, 2) for i in range(n)])
    S = np.array([[(np.zeros(nx) if zero else ctx.vec("x%d_%d" % (i, t), nx, -2, 2)) for t in range(draws + 1)] for i in range(n)])
    if not ctx.symbolic:
        E, S = E.astype(float), S.astype(float)
    for e in E.flat:
        ctx.assume(ctx.or_(e >= 0.1, e <= -0.1))
    Ec = E.copy()
    want = np.zeros((ne, nx), dtype=object if ctx.symbolic else float)
    for i in range(n):
        m.set_par(list(P[i]))
        for t in range(draws):
            for s in range(ne):
                a = b = S[i, t]
                la = lb = None
                for h in range(horizon):
                    e = np.array([E[i, t, j] if (j == s and not h) else 0.0 for j in range(ne)], dtype=object if ctx.symbolic else float)
                    a, la, _ = m.t_func(a, e, linear=linear, return_k=True)
                    b, lb, _ = m.t_func(b, None, linear=linear, return_k=True)
                    if la[1]:
                        ctx.cover("spell")
                want[s] = want[s] + (a - b) ** 2
    vd = m.gfevd(dict(means=S, pars=P, resid=E), horizon=horizon, linear=linear, verbose=False)
    ctx.check("rows are shocks, columns are variables", list(vd.index) == list(m.shocks) and list(vd.columns) == list(m.vv))
    V = vd.to_numpy()
    for j in range(nx):
        tot = sum(want[s][j] for s in range(ne))
        if not bool(tot >= 1e-6):
            continue
        for s in range(ne):
            ctx.close("share times total is the squared response to that shock", V[s, j] * tot, want[s][j], TOL)
        ctx.le("shares are not negative", 0.0, V[:, j], TOL)
        ctx.close("shares sum to one", sum(V[:, j]), 1.0, TOL)
    ctx.close("draws are not modified", E.reshape(-1), Ec.reshape(-1), 0)
    ctx.cover("done")


def instances(tier):
    out = []

    def add(iname, budget=80, cov=("done",), **kw):
        out.append(dict(name=iname, fn=h_fevd, kw=kw, budget=budget if tier == "quick" else budget * 6, must_cover=list(cov), query_ms=10000))

    for n in ("nk3", "conshock", "norm", "hybrid"):
        add("linear/%s/h1" % n, name=n, draws=1, horizon=1)
        add("linear/%s/h2" % n, name=n, draws=1, horizon=2)
    add("linear/nk3/state", name="nk3", draws=1, horizon=2, zero=False)
    add("linear/conshock/state3", name="conshock", draws=1, horizon=3, zero=False)
    add("linear/nkp/h4", name="nkp", draws=1, horizon=4, zero=False)
    add("linear/conshock/two", name="conshock", draws=2, horizon=1)
    add("linear/norm/pars", name="norm", draws=1, horizon=2, pars=(None, MM.ALT["norm"]))
    add("endo/conshock", budget=240, name="conshock", draws=1, horizon=1, linear=False, cov=("done", "spell"))
    add("endo/nkp", name="nkp", draws=1, horizon=1, linear=False, cov=("done", "spell"))
    if tier != "quick":
        add("endo/hybrid", name="hybrid", draws=1, horizon=1, linear=False, cov=("done", "spell"))
    return out
