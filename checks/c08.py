"""C08: options of the transition function are consistent with each other and it has no side effects."""

import numpy as np

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "t_func is called several times on the same symbolic state and shocks with different options, and the results are compared as terms: endogenous durations versus the same durations set explicitly, "
    "reduced output (observables) versus measurement of the full state, omitted versus zero shocks, full state versus its predetermined part, return forms. z3 decides equality for all values; inputs and model are compared before and after."
)
BOUNDS = dict(states="|x|<=4 all elements free", shocks="|eps|<=4", durations="l_max=2, k_max=2 or 3", models="see instances", tolerance="1e-8")
ASSUMPTIONS = ["exact real arithmetic on the double precision coefficients the code computes", "system matrices compiled concretely"]
B = 4.0
TOL = 1e-8


def snap(m):
    return [np.array(x, dtype=object).copy() for x in list(m.precalc_mat) + list(m.hx) + [m.sys[0], m.sys[1], m.sys[2], m.par, m.lks]]


def same(a, b):
    # unused entries of the matrices are uninitialised memory and may be NaN
    return all(x.shape == y.shape and all(u is v or u == v or (u != u and v != v) for u, v in zip(x.flat, y.flat)) for x, y in zip(a, b))


def h_opts(ctx, name, lmax=2, kmax=2, zero=False):
    m = MM.model(name, None, lmax, kmax)
    before = snap(m)
    nx, ne = len(m.vv), len(m.shocks)
    st = np.zeros(nx) if zero else ctx.vec("x", nx, -B, B)
    eps = ctx.vec("eps", ne, -B, B)
    st0, eps0 = st.copy(), eps.copy()
    new, (l, k), flag = m.t_func(st, eps, return_k=True)
    ctx.cover("spell" if k else "slack")
    if l:
        ctx.cover("anticipated spell")
    # a second call, and the other return forms, give the same
    r2 = m.t_func(st, eps)
    ctx.check("state and flag are returned by default", len(r2) == 2 and r2[1] == flag)
    ctx.close("repeated call returns the same state", r2[0], new, TOL)
    ctx.close("return_flag=False returns the state", m.t_func(st, eps, return_flag=False), new, TOL)
    # durations set explicitly
    s3, lk3, f3 = m.t_func(st, eps, set_k=(l, k), return_k=True)
    ctx.check("set durations are reported without error flag", tuple(lk3) == (l, k) and f3 == 0)
    ctx.close("setting the endogenous durations gives the same state", s3, new, TOL)
    # only the predetermined part of the state matters
    ctx.close("predetermined part of the state is sufficient", m.t_func(st[m.dimp:], eps)[0], new, TOL)
    other = st.copy()
    other[: m.dimp] = 17.0
    ctx.close("controls in the state are irrelevant", m.t_func(other, eps)[0], new, TOL)
    # observables
    (q, ob), fl = m.t_func(st, eps, get_obs=True)
    ctx.close("reduced form: predetermined part", q, new[m.dimp:], TOL)
    ctx.close("reduced form: observables", ob, m.o_func(new), TOL)
    ctx.check("reduced form: flag", fl == flag)
    ctx.check("inputs are not modified", bool(np.all(st == st0)) and bool(np.all(eps == eps0)))
    ctx.check("model is not modified", same(before, snap(m)))


def h_none(ctx, name, lmax=2, kmax=2):
    """no shocks"""
    m = MM.model(name, None, lmax, kmax)
    before = snap(m)
    st = ctx.vec("x", len(m.vv), -B, B)
    st0 = st.copy()
    a, lk, fl = m.t_func(st, return_k=True)
    ctx.cover("spell" if lk[1] else "slack")
    b, lk2, fl2 = m.t_func(st, np.zeros(len(m.shocks)), return_k=True)
    ctx.check("omitted shocks are zero shocks: durations and flag", tuple(lk) == tuple(lk2) and fl == fl2)
    ctx.close("omitted shocks are zero shocks: state", a, b, TOL)
    ctx.close("omitted shocks are zero shocks: observables", m.t_func(st, get_obs=True)[0][1], m.o_func(b), TOL)
    c, lk3, fl3 = m.t_func(st, set_k=False, return_k=True)
    ctx.check("no durations requested: durations are endogenous", tuple(lk) == tuple(lk3) and fl == fl3)
    ctx.close("no durations requested: state", a, c, TOL)
    ctx.check("inputs are not modified", bool(np.all(st == st0)))
    ctx.check("model is not modified", same(before, snap(m)))


def h_set(ctx, name, lmax=2, kmax=3):
    """forms of set durations; these do not involve the search"""
    m = MM.model(name, None, lmax, kmax)
    nx, ne = len(m.vv), len(m.shocks)
    st = ctx.vec("x", nx, -B, B)
    eps = ctx.vec("eps", ne, -B, B)
    lin, lk, fl = m.t_func(st, eps, linear=True, return_k=True)
    ctx.check("linear means no spell", tuple(lk) == (0, 0) and fl == 0)
    ctx.close("linear equals a spell of length zero", m.t_func(st, eps, set_k=(0, 0))[0], lin, TOL)
    ctx.close("set_k=0 equals the linear solution", m.t_func(st, eps, set_k=0)[0], lin, 1e-6)
    ctx.close("linear overrides set durations", m.t_func(st, eps, set_k=(0, 2), linear=True)[0], lin, TOL)
    for k in range(1, kmax + 1):
        a, lk, fl = m.t_func(st, eps, set_k=k, return_k=True)
        ctx.check("an integer is a spell that starts immediately", tuple(lk) == (0, k))
        ctx.close("integer and pair forms agree", a, m.t_func(st, eps, set_k=(0, k))[0], TOL)
        ctx.close("float pairs are accepted", a, m.t_func(st, eps, set_k=(0.0, float(k)))[0], TOL)
    for l in range(1, lmax + 1):
        ctx.close("anticipating no spell is the linear solution", m.t_func(st, eps, set_k=(l, 0))[0], lin, 1e-6)
    ctx.close("omitted shocks are zero shocks", m.t_func(st, set_k=(0, 1))[0], m.t_func(st, np.zeros(ne), set_k=(0, 1))[0], TOL)
    ctx.close("omitted shocks are zero shocks (linear)", m.t_func(st, linear=True)[0], m.t_func(st, np.zeros(ne), linear=True)[0], TOL)
    # linearity of the linear solution, affinity for given durations
    y, e2 = ctx.vec("y", nx, -B, B), ctx.vec("e2", ne, -B, B)
    a = ctx.choice("scale", (0.5, -2.0))
    ctx.close("linear solution is linear", m.t_func(st + a * y, eps + a * e2, linear=True)[0], lin + a * m.t_func(y, e2, linear=True)[0], 1e-6)
    for lk in ((0, 1), (1, 2), (2, 1)):
        d = m.t_func(st, eps, set_k=lk)[0] - m.t_func(y, e2, set_k=lk)[0]
        d2 = m.t_func(st + 1.0, eps + 1.0, set_k=lk)[0] - m.t_func(y + 1.0, e2 + 1.0, set_k=lk)[0]
        ctx.close("given durations the transition is affine", d, d2, 1e-6)
    ctx.cover("forms")


def instances(tier):
    out = [dict(name="set/" + n, fn=h_set, kw=dict(name=n), budget=60, must_cover=["forms"]) for n in MM.M]
    cells = [("nk", 3, 0), ("smooth", 2, 0), ("leads", 2, 0), ("hybcon", 2, 0), ("conshock", 2, 0), ("norm", 2, 0), ("nk3", 2, 1), ("hybrid", 2, 1), ("ma", 2, 1), ("lags", 2, 1), ("dfi", 2, 1)]
    if tier != "quick":
        cells = [(n, k, z) for n in MM.M for k, z in ((3, 0), (5, 1))]
    for n, km, z in cells:
        out.append(dict(name="search/%s/k%d%s" % (n, km, "/zero" if z else ""), fn=h_opts, kw=dict(name=n, kmax=km, zero=z), budget=100 if tier == "quick" else 600, must_cover=["spell", "slack"]))
    for n in ("nk", "nk3", "conshock", "norm", "hybrid", "ma", "lags", "nkp") if tier == "quick" else list(MM.M) + ["nkp"]:
        if n != "square":
            out.append(dict(name="noshock/" + n, fn=h_none, kw=dict(name=n, kmax=2 if tier == "quick" else 3), budget=100 if tier == "quick" else 600, must_cover=["spell", "slack"]))
    return out
