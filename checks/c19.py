"""C19: extracted shocks, fed into the model from the extracted initial state, reproduce the (smoothed) data."""

import numpy as np
import pandas as pd

import econsieve.kalman_filter as ekf

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "extract is executed on symbolic data. With the Kalman filter, the filter and smoother recursions of the package econsieve are executed on the symbolic data as well (the gains are concrete): z3 decides that the extracted shocks, fed into the transition function from the extracted initial "
    "state under each sample's parameters, reproduce the data exactly if there are no measurement errors, and the smoothed states otherwise; for any smoothed path that is implied by some shocks exactly these are extracted. With the ensemble filter z3 decides that the path adjustment is given the transition of the model and ensemble members whose observables, states and initial states belong together, and that its results are passed on."
)
BOUNDS = dict(data="2 to 4 periods (quick), 8 (thorough), |z|<=5", samples="up to three parameter vectors", states="|x|<=4", models="see instances")
ASSUMPTIONS = ["the log density of the Kalman filter is not evaluated (it does not affect the states)", "the ensemble filter and its path adjustment (optimisation by cmaes) are stand-ins with arbitrary results", "real arithmetic on the filter's concrete matrices"]
TOL = 1e-6


def points(name, spec, n):
    alts = [{}, MM.ALT[name], dict(x_bar=-.5) if "x_bar" in spec.par0 else {}]
    out = []
    for a in alts[:n]:
        p = dict(spec.par0)
        p.update(a)
        out.append(p)
    return out


def put(m, Z):
    m.data = pd.DataFrame(np.asarray(Z), index=["q%d" % t for t in range(len(Z))], columns=m.observables)


def at(m, p):
    m.set_par([p[n] for n in m.par_names], l_max=1, k_max=0)


def h_kf(ctx, name, T=3, n=1, noise=0.0, how="given", lk=(None, None)):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, 1, 0)
    ne, nx, no = len(m.shocks), len(m.vv), len(m.observables)
    Z = ctx.mat("z", T, no, -5, 5)
    put(m, Z)
    pts = points(name, spec, max(n, 2))
    if how == "current":
        at(m, pts[ctx.choice("at", (0, 1))])
    m.create_filter(ftype="KalmanFilter")
    m.filter.R = np.eye(no) * noise
    if how == "changed":
        at(m, pts[1])
    keep = m.debug = ctx.choice("debug", (True, False))
    cur = dict(zip(m.par_names, m.par))
    ekf_logpdf, ekf.logpdf = ekf.logpdf, lambda *a, **k: 0.0
    smoothed = []
    rts = m.filter.rts_smoother

    def spy(*a, **k):
        r = rts(*a, **k)
        smoothed.append(r[0])
        return r

    m.filter.rts_smoother = spy
    twice = ctx.choice("twice", (False, True))
    try:
        for _ in range(1 + twice):
            del smoothed[:]
            if how == "given":
                vecs = [[p[k] for k in m.par_names] for p in pts[:n]]
                res = m.extract(sample=vecs if n > 1 else vecs[0], verbose=False, l_max=lk[0], k_max=lk[1])
                pars = pts[:n]
            else:
                res = m.extract(verbose=False)
                pars = [cur]
    finally:
        ekf.logpdf = ekf_logpdf
    ctx.check("one result per sample", len(res["pars"]) == len(res["init"]) == len(res["resid"]) == len(pars))
    ctx.check("the debug flag is kept", m.debug == keep)
    ctx.close("the data are left alone", np.asarray(m.data), np.asarray(Z), 0)
    for i, p in enumerate(pars):
        ctx.close("the parameters of the sample", list(res["pars"][i]), [p[k] for k in m.par_names], 1e-12)
        at(m, p)
        x, eps = np.asarray(res["init"][i]), np.asarray(res["resid"][i])
        ctx.check("one innovation per shock and transition", eps.shape == (T - 1, ne))
        for t in range(T):
            if t:
                x = np.asarray(m.t_func(x, eps[t - 1], linear=True)[0])
            if noise == 0:
                ctx.close("the data are reproduced", np.asarray(m.o_func(x)), np.asarray(Z)[t], TOL)
                ctx.cover("data")
            ctx.close("the smoothed states are reproduced", x, smoothed[i][t], 1e-5)
        ctx.cover("done")


def h_path(ctx, name, T=3, n=2, lk=(None, None)):
    """any path implied by shocks, returned by the smoother, gives back these shocks"""
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, 1, 0)
    ne, nx, no = len(m.shocks), len(m.vv), len(m.observables)
    put(m, np.zeros((T, no)))
    pts = points(name, spec, n)
    m.create_filter(ftype="KalmanFilter")
    given, calls = [], []
    for i in range(n):
        at(m, pts[i])
        x0 = np.asarray(m.t_func(ctx.vec("x%d" % i, nx, -4, 4), None, linear=True)[0])
        E = ctx.mat("e%d" % i, T - 1, ne, -4, 4)
        xs = [x0]
        for t in range(T - 1):
            xs.append(np.asarray(m.t_func(xs[-1], E[t], linear=True)[0]))
        given.append((x0, E, np.array(xs)))
    at(m, pts[0])

    def bf(*a, **k):
        return np.zeros((T, nx)), np.zeros((T, nx, nx)), 0.0

    def rts(*a, **k):
        calls.append(1)
        return given[len(calls) - 1][2].copy(), np.zeros((T, nx, nx)), None, None

    m.filter.batch_filter, m.filter.rts_smoother = bf, rts
    vecs = [[p[k] for k in m.par_names] for p in pts]
    res = m.extract(sample=vecs if n > 1 else vecs[0], verbose=False, l_max=lk[0], k_max=lk[1])
    for i in range(n):
        ctx.close("the initial state is the smoothed one", np.asarray(res["init"][i]), given[i][0], 1e-8)
        ctx.close("the innovations are those behind the path", np.asarray(res["resid"][i]), given[i][1], 1e-5)
    ctx.cover("done")


class Boom(Exception):
    pass


def h_enkf(ctx, name, n=1, k=1, fails=0, accept=False, reduced=False, T=3, N=3, k_max=0):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, 1, 0)
    ne, nx, no, nq = len(m.shocks), len(m.vv), len(m.observables), m.dimq - m.dimeps
    put(m, np.zeros((T, no)))
    pts = points(name, spec, 2)
    m.create_filter(ftype="TEnKF", N=N, reduced_form=reduced)
    seed = ctx.choice("seed", (0, 1))
    sm, out, log = [], [], []
    left = [fails]

    def bf(self, z, *a, **kw):
        log.append(("filter", self, kw.get("seed"), self.t_func, self.o_func))
        return "filtered"

    def rts(self, r, *a, **kw):
        i = len(sm)
        X = np.array(ctx.mat("X%d" % i, N * T, nx, -4, 4)).reshape(N, T, nx)
        for j in range(N):
            X[j, :, 0] = [float(10 + j + t / 10) for t in range(T)]
        sm.append(X)
        log.append(("smooth", r))
        return X.copy()

    def npas(self, *a, **kw):
        i = len(sm) - 1
        log.append(("npas", kw.get("seed")))
        if left[0] > 0:
            left[0] -= 1
            raise Boom("no")
        X, init, fun = np.asarray(kw["X"]), np.asarray(kw["init_states"]), kw["func"]
        ctx.check("all members and periods", X.shape == (N, T, no + nq) and init.shape == (N, nx))
        who = [int(round(float(init[j, 0]))) - 10 for j in range(N)]
        ctx.check("every member once", sorted(who) == list(range(N)))
        for j, w in enumerate(who):
            ctx.close("initial states of the members", init[j], sm[i][w, 0], 0)
            ctx.close("observables of the members", X[j, :, :no], np.asarray(m.o_func(sm[i][w])), 1e-9)
            ctx.close("states of the members", X[j, :, no:], sm[i][w][:, nx - nq:], 0)
        # the function to be matched is the transition of the model under the sample's parameters
        x, e = ctx.vec("xx%d" % i, nx, -4, 4), ctx.vec("ee%d" % i, ne, -4, 4)
        y, flag = fun(x, e)
        x1, f1 = m.t_func(x, e)
        ctx.close("the path is that of the model (observables)", np.asarray(y)[:no], np.asarray(m.o_func(x1)), 1e-8)
        ctx.close("the path is that of the model (states)", np.asarray(y)[no:], np.asarray(x1)[nx - nq:], 1e-8)
        ctx.check("with its error flag", bool(flag) == bool(f1))
        ctx.cover("npas")
        r = ctx.vec("init%d" % len(out), nx, -4, 4), ctx.mat("res%d" % len(out), T - 1, ne, -4, 4)
        out.append(r)
        return np.asarray(r[0]).copy(), np.array([r[1]]), 0

    cls = type(m.filter)
    old = cls.batch_filter, cls.rts_smoother, cls.npas
    cls.batch_filter, cls.rts_smoother, cls.npas = bf, rts, npas
    try:
        vecs = [[p[x] for x in m.par_names] for p in pts[:n]]
        err = None
        try:
            res = m.extract(sample=vecs if n > 1 else vecs[0], nsamples=k, seed=seed, verbose=False, accept_failure=accept, l_max=1, k_max=k_max)
        except Boom as e:
            err = e
    finally:
        cls.batch_filter, cls.rts_smoother, cls.npas = old
    if fails > 3 and not accept:
        ctx.check("repeated failure is reported", err is not None)
        ctx.cover("done")
        return
    ctx.check("temporary failures are retried", err is None)
    if fails > 3:
        ctx.cover("done")
        return
    ctx.check("one result per sample and draw", len(out) == n * k and len(res["resid"]) == n * k and len(res["init"]) == n * k)
    for i in range(n * k):
        ctx.close("initial states are passed on", np.asarray(res["init"][i]), out[i][0], 0)
        ctx.close("innovations are passed on", np.asarray(res["resid"][i]), out[i][1], 0)
        ctx.close("with the parameters of their sample", list(res["pars"][i]), vecs[i // k], 1e-12)
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(inst, fn, **kw):
        out.append(dict(name=inst, fn=fn, kw=kw, budget=200 if q else 900, must_cover=["done"]))

    for n in ("nkp", "nk3", "ma", "square", "norm"):
        add("kf/%s/exact" % n, h_kf, name=n, T=3 if q else 8)
        add("kf/%s/noise" % n, h_kf, name=n, T=3 if q else 8, noise=.1)
    add("kf/nk3/samples", h_kf, name="nk3", n=2, T=3 if q else 6)
    add("kf/nkp/samples", h_kf, name="nkp", n=3, T=4 if q else 8)
    add("kf/nkp/current", h_kf, name="nkp", how="current", T=2)
    add("kf/nkp/changed", h_kf, name="nkp", how="changed", T=2)
    for n in ("nkp", "nk3", "ma", "square", "norm"):
        add("path/" + n, h_path, name=n, T=3 if q else 6, n=1 if n == "norm" else 2)
    # the linear filter in models in which the constraint might bind
    for n in ("norm", "nk3", "ma"):
        add("path/%s/constrained" % n, h_path, name=n, T=3, n=1, lk=(2, 2))
    add("kf/norm/constrained", h_kf, name="norm", T=3, lk=(2, 2))
    add("enkf/nkp", h_enkf, name="nkp", n=1, k=2)
    add("enkf/nk3", h_enkf, name="nk3", n=1, k=1, k_max=1)
    add("enkf/ma", h_enkf, name="ma", n=2, k=1)
    add("enkf/square", h_enkf, name="square", n=1, k=2, k_max=1)
    add("enkf/nkp/reduced", h_enkf, name="nkp", reduced=True)
    add("enkf/nkp/retry", h_enkf, name="nkp", n=1, fails=3)
    add("enkf/nkp/fail", h_enkf, name="nkp", n=1, fails=4)
    return out
