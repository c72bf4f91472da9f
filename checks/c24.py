"""C24: names address the variables, observables and shocks they belong to."""

import contextlib
import io

import numpy as np
import pandas as pd

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "vix, oix, shock2state, mask and the labels of impulse responses are executed for symbolic selections of names, symbolic states and symbolic sizes of shocks. z3 decides that the elements addressed by a name satisfy the equations that the text of the model states for that name "
    "(so that positions can not be mixed up consistently), that a shock enters as an innovation to exactly the named shock, and that a mask built from the data addresses the shocks by name and leaves everything else unspecified."
)
BOUNDS = dict(selections="up to two names (any, also repeated), as string or list", states="|x|<=4", sizes="|e|<=4", models="see instances")
ASSUMPTIONS = ["real arithmetic on the compiled matrices; linear transition"]
TOL = 1e-6


def h_names(ctx, name, par=None):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.model(name, par, 1, 0)
    p = dict(spec.par0)
    p.update(par or {})
    env = spec.params(p)
    nx, ne, nq = len(m.vv), len(m.shocks), m.dimq - m.dimeps
    dt = object if ctx.symbolic else float
    P, st = MM.history(ctx, m, spec, 4.0)
    # named variables: equations of the text hold for the elements addressed
    sh = ctx.choice("shock", spec.shocks)
    size = ctx.real("size", -4, 4)
    e = np.zeros(ne, dtype=dt)
    e[spec.shocks.index(sh)] = size
    P.eps[0] = e
    # the state vector with a named shock, in the form find_lk and traj expect
    how = ctx.choice("form", ("pair", "triple"))
    s = np.asarray(m.shock2state((sh, size) if how == "pair" else (sh, size, 0)))
    ctx.check("a state of all states and shocks", s.shape == (m.dimq,))
    ctx.close("no other states", s[:nq], np.zeros(nq), 0)
    # P.eps is in the order of the file; the order of the model is up to it
    full = np.zeros(ne, dtype=dt)
    full[list(m.shocks).index(sh)] = size
    ctx.close("the innovation of the named shock", s[nq:], full, 0)
    for t in range(4):
        st = np.asarray(m.t_func(st, s[nq:] if t == 0 else None, linear=True)[0])
        P.X[t] = st
    names = list(spec.vars)
    a = ctx.choice("a", names)
    b = names[(names.index(a) + ctx.choice("b", (1, 0) if sh == spec.shocks[0] else (1,))) % len(names)]
    ia = m.vix(a)
    ctx.check("one position", len(ia) == 1 and m.vix([a]) == ia)
    ab = m.vix([a, b])
    ctx.check("positions in the order of the names", len(ab) == 2 and ab[0] == ia[0] and ab[1] == m.vix(b)[0])
    ctx.check("names not known are left out if asked for", list(m.vix([a, "nonsense", b], dontfail=True)) == list(ab))
    try:
        m.vix([a, "nonsense"])
        ok = False
    except ValueError:
        ok = True
    ctx.check("and are refused otherwise", ok)

    class ByName(MM.Path):
        def at(self, t):
            def f(n, d):
                if n in self.spec.shocks:
                    x = self.eps.get(t + d)
                    return 0.0 if x is None else x[self.spec.shocks.index(n)]
                if n in (a, b):
                    return self.X[t + d][m.vix(n)[0]]
                return self.X[t + d][self.vv.index(n)]

            return f

    Q = ByName(spec, m.vv)
    Q.X, Q.eps = P.X, P.eps
    for eq in spec.eqs + [spec.con]:
        ctx.close("equation `%s` holds for the elements addressed" % eq, spec.resid(eq, env, Q.at(0)), 0.0, TOL)
    # observables by name
    obs = list(spec.obs)
    o = obs[names.index(a) % len(obs)] if len(obs) <= len(names) else ctx.choice("o", obs)
    q = ctx.choice("q", obs) if sh == spec.shocks[0] else obs[0]
    y = np.asarray(m.o_func(st))
    io = m.oix(o)
    ctx.check("one observable", len(io) == 1 and list(m.oix([o, q])) == [io[0], m.oix(q)[0]])
    ctx.close("the observable addressed is the one of the text", y[io[0]], spec.ev(spec.obs[o], env, P.at(3)), TOL)
    ctx.cover("done")


def h_mask(ctx, name, T=4):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, 1, 0)
    ne, no = len(m.shocks), len(m.observables)
    Z = ctx.mat("z", T, no, -5, 5)
    m.data = pd.DataFrame(np.asarray(Z), index=["q%d" % t for t in range(T)], columns=m.observables)
    msk = m.mask
    ctx.check("one row per transition", len(msk) == T - 1 and list(msk.index) == ["q%d" % t for t in range(T - 1)])
    ctx.check("one column per shock", list(msk.columns) == list(m.shocks))
    ctx.check("nothing is specified", all(isinstance(v, float) and v != v for v in np.asarray(msk, dtype=object).flat))
    ctx.close("the data are left alone", np.asarray(m.data), np.asarray(Z), 0)
    ctx.check("with their names", list(m.data.columns) == list(m.observables))
    # use it: one named shock is set in one period
    t, sh = ctx.choice("t", tuple(range(T - 1))), ctx.choice("sh", spec.shocks)
    v = ctx.choice("v", (0.0, 1.5))
    msk = m.mask
    msk = msk.astype(float)  # an object frame only because the data are terms
    msk.loc["q%d" % t, sh] = v
    E = ctx.mat("e", T - 1, ne, -4, 4)
    x0 = ctx.vec("x", len(m.vv), -4, 4)
    with contextlib.redirect_stdout(io.StringIO()):
        X, _, _ = m.simulate(pars=[list(m.par)], resid=[np.asarray(E)], init=[np.asarray(x0)], mask=msk, operation=lambda x, y: x, linear=True)
    X = np.asarray(X).reshape(T, -1)
    x = np.asarray(x0)
    for s in range(T - 1):
        e = np.array(E[s], dtype=object if ctx.symbolic else float)
        if s == t:
            e[list(m.shocks).index(sh)] = v
        x = np.asarray(m.t_func(x, e, linear=True)[0])
        ctx.close("only the named shock is changed", X[s + 1], x, TOL)
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = []
    for n in list(MM.M) + ["nkp"]:
        if q and n in ("dfi", "lags", "ma"):
            continue
        for i, par in enumerate((None, MM.ALT[n])[: 1 if q else 2]):
            out.append(dict(name="names/%s/p%d" % (n, i), fn=h_names, kw=dict(name=n, par=par), budget=150 if q else 900, must_cover=["done"]))
    for n in ("nk3", "nkp", "square", "ma"):
        out.append(dict(name="mask/" + n, fn=h_mask, kw=dict(name=n, T=3 if q else 5), budget=150 if q else 900, must_cover=["done"]))
    return out
