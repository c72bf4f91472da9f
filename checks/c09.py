"""C09: impulse responses are the transition function iterated on exactly the requested shocks."""

import numpy as np

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "irfs is executed with symbolic shock sizes and a symbolic initial state, for enumerated shapes of the shock list, shock dates, fixed durations and parameter vectors; the returned table is compared, period by period, with the transition function "
    "applied to the previous returned row, the requested shocks of that date and the returned durations (z3, all values); reported durations are compared with the endogenous ones, respectively with the requested or continued spell."
)
BOUNDS = dict(states="|x|<=4", shocks="|size|<=4", T="3 to 5 periods", shock_lists="one to three entries: name only, (name, size), (name, size, date), dates 0..3, several shocks at one date", durations="l_max=2,k_max=2..3", models="see instances")
ASSUMPTIONS = ["exact real arithmetic on the double precision coefficients the code computes", "system matrices compiled concretely"]
B = 4.0
TOL = 1e-7


def entry(ctx, i, name, date, form):
    if form == "str":
        return name, (name, 1.0, 0)
    size = ctx.real("size%d" % i, -B, B)
    if form == "pair":
        return (name, size), (name, size, 0)
    return (name, size, date), (name, size, date)


def h_irf(ctx, name, shapes, T=3, mode="endo", kmax=2, sym_state=False, setk=(None,), fie=(None,), pars=(None,), aslist=True):
    with MM.concretely():
        ref = None
        m = MM.model(name, None, 2, kmax)
    ne, nx = len(m.shocks), len(m.vv)
    shape = ctx.choice("shape", shapes)
    sk = ctx.choice("set_k", setk)
    force = ctx.choice("force_init_equil", fie)
    par = ctx.choice("pars", pars)
    spec = [entry(ctx, i, m.shocks[s % ne], d, f) for i, (s, d, f) in enumerate(shape)]
    lst = [a for a, _ in spec]
    arg = lst if (aslist or len(lst) > 1) else lst[0]
    keep = list(lst)
    kw = {}
    x0 = np.zeros(nx)
    if sym_state:
        x0 = ctx.vec("x", nx, -B, B)
        kw["state"] = x0
        x0c = x0.copy()
    if sk is not None:
        kw["set_k"] = sk
    if force is not None:
        kw["force_init_equil"] = force
    pv = None
    if par is not None:
        p = dict(zip(m.par_names, m.p0()))
        p.update(par)
        pv = [p[n] for n in m.par_names]
        kw["pars"] = pv
    par_before = list(m.par)
    lk_before = list(m.lks)
    X, LK, flag = m.irfs(arg, T=T, linear=mode == "linear", verbose=0, **kw)
    ctx.check("one row per period, columns are the model's variables", X.shape == (T, nx) and list(X.columns) == list(m.vv) and LK.shape == (2, T))
    ctx.check("shock list is not modified", lst == keep if not ctx.symbolic else all(a is b for a, b in zip(lst, keep)) and len(lst) == len(keep))
    ctx.check("parameters and horizon of the model are unchanged", list(m.par) == par_before and list(m.lks) == lk_before)
    if sym_state:
        ctx.close("initial state is not modified", x0, x0c, 0)
    X = X.to_numpy()
    if pv is not None:
        m.set_par(pv)
    st = x0
    prev = None
    anyflag = False
    for t in range(T):
        eps = np.array([0.0] * ne, dtype=object)
        for nm, size, d in (b for _, b in spec):
            if d == t:
                eps[m.shocks.index(nm)] = size
        eps = eps if ctx.symbolic else eps.astype(float)
        l, k = int(LK[0][t]), int(LK[1][t])
        want = m.t_func(st, eps, set_k=(l, k))[0]
        ctx.close("each row is the transition of the previous row under the requested shocks", X[t], want, TOL)
        if mode == "linear":
            ctx.check("linear responses report no spell", (l, k) == (0, 0))
        elif sk is not None:
            ctx.check("requested durations count down", (l, k) == (MM.lk_seq(sk[0], sk[1], t) if isinstance(sk, tuple) else (0, max(sk - t, 0))))
        else:
            _, lk, f = m.t_func(st, eps, return_k=True)
            hit = any(bool(e != 0) for e in eps)
            ok = (l, k) == tuple(lk)
            if not hit and t and force is not False:
                ok = ok or (l, k) == ((prev[0] - 1, prev[1]) if prev[0] else (0, max(prev[1] - 1, 0)))
            else:
                anyflag = anyflag or bool(f)
            ctx.check("durations are endogenous or continue the previous spell", ok, "%s at %d" % ((l, k), t))
            if k:
                ctx.cover("spell")
        if ctx.symbolic:
            ctx.eng.stats["forks"] += 0
        prev = (l, k)
        st = X[t]
    if mode == "linear" or sk is not None:
        ctx.check("no error flag", not flag)
    elif force is False:
        ctx.check("error flag iff some period has no solution", bool(flag) == anyflag)
    ctx.cover("done")


A = [((0, 0, "str"),), ((0, 0, "pair"),), ((0, 0, "full"),), ((0, 1, "full"),)]
S2 = [((0, 0, "full"), (1, 0, "full")), ((0, 0, "pair"), (1, 2, "full")), ((0, 2, "full"), (1, 1, "full"), (0, 0, "full")), ((1, 0, "str"), (0, 1, "full"))]


def instances(tier):
    out = []

    def add(iname, budget=100, cov=("done",), **kw):
        out.append(dict(name=iname, fn=h_irf, kw=kw, budget=budget if tier == "quick" else budget * 6, must_cover=list(cov)))

    for n in ("nk3", "conshock", "ma", "dfi", "norm", "hybrid"):
        add("linear/" + n, name=n, shapes=A + S2, T=5, mode="linear", sym_state=True)
        add("setk/" + n, name=n, shapes=S2, T=5, kmax=4, sym_state=True, setk=((0, 2), (2, 1), (1, 3), 3, 1))
    add("linear/single", name="nk", shapes=A, T=5, mode="linear", sym_state=True, aslist=False)
    add("pars/linear", name="nk3", shapes=S2, T=4, mode="linear", sym_state=True, pars=(None, MM.ALT["nk3"], dict(sigma=2.5, phi_pi=1.3)))
    add("pars/endo", name="nk", shapes=A[2:3], T=3, pars=(MM.ALT["nk"],), sym_state=False, cov=("done", "spell"))
    add("endo/nk", name="nk", shapes=A, T=4, kmax=3, cov=("done", "spell"))
    add("endo/nk/state", name="nk", shapes=[((0, 1, "full"),)], T=3, sym_state=True, fie=(None, False), cov=("done", "spell"))
    add("endo/smooth", name="smooth", shapes=A, T=4, kmax=3, cov=("done", "spell"))
    add("endo/smooth/twice", name="smooth", shapes=[((0, 0, "full"), (0, 2, "full"))], T=4, kmax=2, fie=(None, False), cov=("done", "spell"))
    add("endo/nk3", name="nk3", shapes=S2[:2], T=3, cov=("done", "spell"))
    add("endo/conshock", name="conshock", shapes=S2[:2], T=3, cov=("done", "spell"))
    if tier != "quick":
        for n in ("leads", "hybcon", "lags", "ma", "norm", "hybrid", "dfi"):
            add("endo/" + n, name=n, shapes=A + S2[:2], T=5, kmax=3, cov=("done", "spell"))
    return out
