"""C25: intervals of observables and states, and measurement errors, follow from covariances and data."""

import numpy as np
import pandas as pd

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "o_func with covariances and create_obs_cov are executed on symbolic means, symbolic covariance matrices (arbitrary non-negative combinations of fixed directions, so that they are positive semidefinite) and symbolic data. z3 decides that intervals are centred at the measurement of the mean, that their squared "
    "half-width is 1.96^2 times the variance of the observable (state) implied by the covariance, date by date, and that the covariance of measurement errors has the requested share of each series' variance on its diagonal and zeros elsewhere."
)
BOUNDS = dict(states="|x|<=4", covariances="non-negative combinations of nx+2 directions, weights in [0.01,4]", dates="2", data="3 periods, |z|<=4 (one series at a time symbolic)", models="see instances")
ASSUMPTIONS = ["real arithmetic; square roots are exact"]
TOL = 1e-6


def h_iv(ctx, name, T=2):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, 1, 0)
    env = spec.params(spec.par0)
    nx, no = len(m.vv), len(m.observables)
    dt = object if ctx.symbolic else float
    X = ctx.mat("x", T, nx, -4, 4)
    rng = np.random.RandomState(0)
    dirs = [np.eye(nx)[i] for i in range(nx)] + [np.round(rng.uniform(-1, 1, nx), 2), np.ones(nx)]
    C = np.zeros((T, nx, nx), dtype=dt)
    for t in range(T):
        for j, d in enumerate(dirs):
            w = ctx.real("w%d_%d" % (t, j), .01, 4) if j in (t, nx - 1, nx) else .2
            C[t] = C[t] + np.outer(d, d) * w
    C0, X0 = C.copy(), np.array(X, dtype=dt)
    ivo, ivx = m.o_func(np.asarray(X), covs=C)
    ivo, ivx = np.asarray(ivo), np.asarray(ivx)
    ctx.check("lower end, centre and upper end for each date", ivo.shape == (3, T, no) and ivx.shape == (3, T, nx))
    P = MM.Path(spec, m.vv)
    for t in range(T):
        P.X[t] = X0[t]
        # rows of the measurement equation from the text: the constant and the response to each state
        rows = []
        for o in spec.obs:
            def val(x):
                q = MM.Path(spec, m.vv)
                q.X[0] = x
                return spec.ev(spec.obs[o], env, q.at(0))

            c = val(np.zeros(nx))
            rows.append(np.array([val(np.eye(nx)[i]) - c for i in range(nx)], dtype=float))
            ctx.close("centred at the measurement of the mean", ivo[1, t, list(m.observables).index(o)], val(X0[t]), TOL)
        for o, h in zip(spec.obs, rows):
            i = list(m.observables).index(o)
            var = h @ C0[t] @ h
            up, lo = ivo[2, t, i] - ivo[1, t, i], ivo[1, t, i] - ivo[0, t, i]
            ctx.close("symmetric", up, lo, TOL)
            ctx.le("ordered", 0.0, up, TOL)
            ctx.close("of the width of the observable", up * up, var * 1.96 ** 2, 1e-5)
        for i in range(nx):
            up, lo = ivx[2, t, i] - ivx[1, t, i], ivx[1, t, i] - ivx[0, t, i]
            ctx.close("states: centred at the mean", ivx[1, t, i], X0[t][i], TOL)
            ctx.close("states: symmetric", up, lo, TOL)
            ctx.le("states: ordered", 0.0, up, TOL)
            ctx.close("states: of the width of the state", up * up, C0[t][i, i] * 1.96 ** 2, 1e-5)
    ctx.close("covariances are left alone", C, C0, 0)
    ctx.close("means are left alone", np.asarray(X), X0, 0)
    ctx.cover("done")


def h_obs(ctx, name, T=3):
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, 1, 0)
    no = len(m.observables)
    free = ctx.choice("free", tuple(range(no)))
    rng = np.random.RandomState(1)
    Z = np.array(np.round(rng.uniform(-2, 2, (T, no)), 3), dtype=object if ctx.symbolic else float)
    z = ctx.vec("z", T, -4, 4)
    for t in range(T):
        Z[t, free] = z[t]
    m.data = pd.DataFrame(Z.copy(), columns=m.observables)
    default = ctx.choice("default", (True, False))
    c = .1 if default else ctx.real("scale", 0, 2)
    R = np.asarray(m.create_obs_cov() if default else m.create_obs_cov(c))
    ctx.check("one row per observable", R.shape == (no, no))
    for i in range(no):
        mean = sum(Z[t, i] for t in range(T)) * (1.0 / T)
        var = sum((Z[t, i] - mean) * (Z[t, i] - mean) for t in range(T)) * (1.0 / T)
        for j in range(no):
            ctx.close("the share of the variance" if i == j else "uncorrelated", R[i, j], var * c * c if i == j else 0.0, 1e-7)
    ctx.close("the data are left alone", np.asarray(m.data), Z, 0)
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = []
    for n in ("nk3", "nkp", "norm", "hybrid", "square") if q else [x for x in MM.M if MM.maxlag(MM.Spec(x), list(map(str, MM.Spec(x).obs.values()))) == 0]:
        out.append(dict(name="intervals/" + n, fn=h_iv, kw=dict(name=n, T=2), budget=200 if q else 900, must_cover=["done"]))
    for n in ("nk3", "nkp", "dfi"):
        out.append(dict(name="errors/" + n, fn=h_obs, kw=dict(name=n, T=3 if q else 6), budget=200 if q else 900, must_cover=["done"]))
    return out
