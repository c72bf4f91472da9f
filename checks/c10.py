"""C10: simulated series are the transition function iterated on the given shocks under the given parameters."""

import numpy as np

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "simulate is executed with symbolic initial states and symbolic innovations for one or two samples with different parameter vectors, with and without a mask (symbolic mask values, enumerated positions and operations). "
    "Every returned state is compared with the transition function applied to the previous returned state, the (masked) innovation of that date and the parameters of that sample; z3 decides equality over all values."
)
BOUNDS = dict(states="|x|<=4", shocks="|eps|<=4", T="2 to 4 periods", samples="1 or 2", masks="all NaN patterns over the cells listed, operations multiply and add and replace", models="see instances")
ASSUMPTIONS = ["exact real arithmetic on the double precision coefficients the code computes", "system matrices compiled concretely"]
B = 4.0
TOL = 1e-7


def vec_of(m, par):
    p = dict(zip(m.par_names, m.p0()))
    p.update(par or {})
    return [p[n] for n in m.par_names]


def h_sim(ctx, name, T=2, pars=(None,), linear=False, zero=False, masks=(None,), ops=("default",), source=(False,), kmax=2, keyword_only=False):
    m = MM.model(name, None, 2, kmax)
    ne, nx, n = len(m.shocks), len(m.vv), len(pars)
    P = np.array([vec_of(m, p) for p in pars])
    X0 = np.array([np.zeros(nx) if zero else ctx.vec("x%d" % i, nx, -B, B) for i in range(n)])
    E = np.array([ctx.mat("eps%d" % i, T, ne, -B, B) for i in range(n)])
    if not ctx.symbolic:
        X0, E = X0.astype(float), E.astype(float)
    X0c, Ec = X0.copy(), E.copy()
    cells = ctx.choice("mask", masks)
    op = ctx.choice("operation", ops)
    kw = {}
    mask = None
    if cells is not None:
        mask = np.full((T, ne), np.nan, dtype=object if ctx.symbolic else float)
        for t, j in cells:
            mask[t % T, j % ne] = ctx.real("mask%d_%d" % (t % T, j % ne), -2, 2)
        kw["mask"] = mask
    f = {"default": lambda a, b: a * b, "add": lambda a, b: a + b, "replace": lambda a, b: a}[op]
    if op == "add":
        kw["operation"] = np.add
    elif op == "replace":
        kw["operation"] = lambda a, b: a
    par_before, hz = list(m.par), list(m.lks)
    if ctx.choice("as source", source):
        X, (L, K), flags = m.simulate(dict(pars=P, resid=E, init=X0), linear=linear, **kw)
    else:
        X, (L, K), flags = m.simulate(pars=P, resid=E, init=X0, linear=linear, **kw)
    X, L, K = np.asarray(X), np.asarray(L), np.asarray(K)
    ctx.check("shapes", X.shape == (n, T + 1, nx) and L.shape == (n, T) and K.shape == (n, T) and len(flags) == n, (X.shape, L.shape))
    ctx.check("parameters and horizon of the model are unchanged", list(m.par) == par_before and list(m.lks) == hz)
    ctx.close("inputs are not modified", np.hstack((X0.reshape(-1), E.reshape(-1))), np.hstack((X0c.reshape(-1), Ec.reshape(-1))), 0)
    for i in range(n):
        m.set_par(list(P[i]))
        ctx.close("simulation starts at the given state", X[i, 0], X0[i], TOL)
        anyflag = False
        for t in range(T):
            e = E[i, t].copy()
            if cells is not None:
                for tt, j in cells:
                    if tt % T == t:
                        e[j % ne] = f(mask[t, j % ne], E[i, t, j % ne])
            l, k = int(L[i, t]), int(K[i, t])
            if linear:
                ctx.close("each state is the linear transition of the previous one", X[i, t + 1], m.t_func(X[i, t], e, linear=True)[0], TOL)
                ctx.check("no spells in a linear simulation", (l, k) == (0, 0))
            else:
                want, lk, fl = m.t_func(X[i, t], e, return_k=True)
                anyflag = anyflag or bool(fl)
                ctx.close("each state is the transition of the previous one", X[i, t + 1], want, TOL)
                ctx.check("durations are the endogenous ones", (l, k) == tuple(lk))
                if k:
                    ctx.cover("spell")
        ctx.check("error flag iff some period has no solution", bool(flags[i]) == anyflag)
    ctx.cover("done")


def instances(tier):
    out = []

    def add(iname, budget=100, cov=("done",), **kw):
        out.append(dict(name=iname, fn=h_sim, kw=kw, budget=budget if tier == "quick" else budget * 6, must_cover=list(cov)))

    MK = [None, [(0, 0)], [(1, 1), (0, 1)], [(2, 0), (0, 1), (1, 0)], [(0, 0), (0, 1), (0, 2)]]
    for n in ("nk3", "conshock", "norm", "hybrid", "dfi", "leads"):
        add("linear/" + n, name=n, T=3, pars=(None, MM.ALT[n]), linear=True, masks=MK, ops=("default", "add", "replace"), source=(False, True))
    add("endo/nk", name="nk", T=2, pars=(None,), cov=("done", "spell"))
    add("endo/nk/two", name="nk", T=1, pars=(MM.ALT["nk"], None), zero=True, cov=("done", "spell"))
    add("endo/nk/mask", name="nk", T=2, pars=(None,), masks=[[(0, 0)], [(1, 0)]], zero=True, cov=("done", "spell"))
    add("endo/smooth", name="smooth", T=2, pars=(None,), cov=("done", "spell"))
    add("endo/nk3", name="nk3", T=1 if tier == "quick" else 2, pars=(None,), zero=True, cov=("done", "spell"))
    add("endo/conshock", name="conshock", T=1 if tier == "quick" else 2, pars=(MM.ALT["conshock"],), zero=True, masks=[None, [(0, 1)]], source=(True,), cov=("done", "spell"))
    if tier != "quick":
        for n in ("leads", "hybcon", "lags", "ma", "norm", "hybrid", "dfi"):
            add("endo/" + n, name=n, T=3, pars=(None, MM.ALT[n]), zero=True, cov=("done", "spell"))
    return out
