"""C15: the filters are set up with the state space of the current model."""

import numpy as np
import pandas as pd

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "run_filter is executed with symbolic standard deviations of the shocks, symbolic data and symbolic states. What the Kalman filter and the ensemble filter are given is compared with the transition and measurement functions of the model: z3 decides that F x is the linear "
    "transition, that H is the measurement equation, that Q is the covariance of the effects of the shocks under the current parameters, that the initial covariance is the unconditional one, that get_eps inverts the transition, and that results do not depend on what was evaluated before."
)
BOUNDS = dict(states="|x|<=4", shocks="|eps|<=4", sd="[0.8,1.2] times the calibration", data="two periods, |z|<=5", history="up to two previous evaluations at other parameters", models="see instances")
ASSUMPTIONS = ["the recursions of the filters (package econsieve) are replaced by stand-ins that record their inputs", "real arithmetic; system matrices concrete"]
B, TOL = 4.0, 1e-6



class Stop(Exception):
    pass


def setpar(ctx, m, spec, tag, alt):
    p = dict(spec.par0)
    p.update(alt or {})
    for s in spec.cov.values():
        p[s] = ctx.real("%s_%s" % (s, tag), .8 * p[s], 1.2 * p[s], default=p[s])
    m.set_par([p[n] for n in m.par_names], l_max=1, k_max=0)
    env = spec.params(p)
    return p, [env[spec.cov[s]] for s in spec.shocks]


def effects(m):
    ne, nx = len(m.shocks), len(m.vv)
    out = []
    for s in range(ne):
        e = np.zeros(ne)
        e[s] = 1.0
        out.append(np.asarray(m.t_func(np.zeros(nx), e, linear=True)[0]))
    return out


def cov_of(ctx, m, sd):
    nx = len(m.vv)
    Q = np.zeros((nx, nx), dtype=object if ctx.symbolic else float)
    for s, v in zip(sd, effects(m)):
        Q = Q + np.outer(v, v) * (s * s)
    return Q


def trans(m, P):
    """F P F' with the transition function of the model"""
    lin = lambda x: np.asarray(m.t_func(x, None, linear=True)[0])
    C = np.array([lin(P[:, j]) for j in range(P.shape[1])]).T
    return np.array([lin(C[i, :]) for i in range(C.shape[0])])


def data(ctx, m, T=2):
    Z = ctx.mat("z", T, len(m.observables), -5, 5)
    m.data = pd.DataFrame(np.asarray(Z), index=["q%d" % t for t in range(T)], columns=m.observables)
    return Z


def h_kf(ctx, name, hist=1):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, 1, 0)
    ne, nx, no = len(m.shocks), len(m.vv), len(m.observables)
    Z = data(ctx, m)
    setpar(ctx, m, spec, "0", None)
    m.create_filter(ftype="KalmanFilter")
    R = ctx.mat("R", no, no, -1, 1)
    m.filter.R = R
    seen, ret = {}, {}

    def bf(z, *a, **k):
        f = m.filter
        seen.update(Z=z, F=f.F, H=f.H, Q=f.Q, P=f.P, R=f.R)
        return ret["means"], ret["covs"], ret["ll"]

    def sm(means, covs, *a, **k):
        seen.update(sm=(means, covs), F2=m.filter.F, Q2=m.filter.Q)
        return ret["smeans"], ret["scovs"], None, None

    m.filter.batch_filter = bf
    m.filter.rts_smoother = sm
    ops = ["ll", "smooth", "filter"]
    for h in range(hist + 1):
        last = h == hist
        sd = None
        if h or hist == 0:
            how = ctx.choice("how%d" % h, ["same", "set", "alt"])
            if how == "same":
                pass
            else:
                cur = setpar(ctx, m, spec, str(h), MM.ALT.get(name) if how == "alt" else None)
        op = ctx.choice("op%d" % h, ops)
        for k in ("means", "smeans"):
            ret[k] = ctx.mat("%s%d" % (k, h), 2, nx, -5, 5)
        for k in ("covs", "scovs"):
            ret[k] = ctx.mat("%s%d" % (k, h), nx, nx, -5, 5)
        ret["ll"] = float("nan") if ctx.choice("nan%d" % h, (False, True)) else ctx.real("ll%d" % h, -50, 50)
        seen.clear()
        if op == "ll":
            res = m.get_ll()
            if isinstance(ret["ll"], float) and ret["ll"] != ret["ll"]:
                ctx.check("an undefined likelihood is minus infinity", not isinstance(res, getattr(ctx, "core", np).Sym if ctx.symbolic else str) and res == -np.inf)
            else:
                ctx.close("the likelihood is the one of the filter", res, ret["ll"], 0)
            ctx.check("smoothing is not part of the likelihood", "sm" not in seen)
        elif op == "smooth":
            means, covs = m.run_filter()
            ctx.close("smoothed means are returned", means, ret["smeans"], 0)
            ctx.close("smoothed covariances are returned", covs, ret["scovs"], 0)
            ctx.close("the smoother gets the filtered means", seen["sm"][0], ret["means"], 0)
            ctx.close("the smoother gets the filtered covariances", seen["sm"][1], ret["covs"], 0)
        else:
            means, covs = m.run_filter(smoother=False)
            ctx.close("filtered means are returned", means, ret["means"], 0)
            ctx.close("filtered covariances are returned", covs, ret["covs"], 0)
        # the state space
        env = dict(zip(m.par_names, m.par))
        env = spec.params(env)
        sd = [env[spec.cov[s]] for s in spec.shocks]
        x, e = ctx.vec("x%d" % h, nx, -B, B), ctx.vec("e%d" % h, ne, -B, B)
        ctx.close("the data are passed on", np.asarray(seen["Z"]), np.asarray(Z), 0)
        ctx.close("measurement errors are passed on", seen["R"], R, 0)
        ctx.close("F is the linear transition", seen["F"] @ x, m.t_func(x, None, linear=True)[0], TOL)
        H, c = seen["H"]
        ctx.close("H is the measurement equation", H @ x + c, np.asarray(m.o_func(x)), TOL)
        Q = cov_of(ctx, m, sd)
        ctx.close("Q is the covariance of the effects of the shocks", seen["Q"], Q, TOL)
        ctx.close("the initial covariance is the unconditional one", seen["P"], trans(m, np.asarray(seen["P"])) + Q, 1e-5)
        x1 = m.t_func(x, e, linear=True)[0]
        if np.linalg.matrix_rank(np.array(effects(m), dtype=float)) == ne:
            ctx.close("innovations are recovered from two states", m.get_eps_lin(x1, x), e, 1e-5)
            ctx.cover("eps")
    ctx.cover("done")


def h_enkf(ctx, name, reduced, hist=1):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, 1, 0)
    ne, nx, no = len(m.shocks), len(m.vv), len(m.observables)
    nq = m.dimq - m.dimeps
    Z = data(ctx, m)
    setpar(ctx, m, spec, "0", None)
    m.create_filter(ftype="TEnKF", N=5, reduced_form=reduced)
    seen, ret = {}, {}

    def bf(z, *a, **k):
        f = m.filter
        seen.update(Z=z, Q=f.Q, P=f.P, t=f.t_func, o=f.o_func, k=k)
        return ret["x"]

    m.filter.batch_filter = bf
    m.filter.rts_smoother = lambda res, **k: ("smoothed", res)
    for h in range(hist + 1):
        if h:
            how = ctx.choice("how%d" % h, ["same", "set", "alt"])
            if how != "same":
                setpar(ctx, m, spec, str(h), MM.ALT.get(name) if how == "alt" else None)
        op = ctx.choice("op%d" % h, ["ll", "smooth"])
        seen.clear()
        if op == "ll":
            ret["x"] = ctx.real("ll%d" % h, -50, 50)
            ctx.close("the likelihood is the one of the filter", m.get_ll(), ret["x"], 0)
            ctx.check("the likelihood is asked for", seen["k"].get("calc_ll") is True)
        else:
            ret["x"] = ctx.vec("xs%d" % h, 3, -5, 5)
            res = m.run_filter()
            ctx.check("smoothed states", res[0] == "smoothed")
            ctx.close("of the filtered ones", res[1], ret["x"], 0)
            ctx.check("states are stored for the smoother", bool(seen["k"].get("store")) and not seen["k"].get("calc_ll"))
        env = spec.params(dict(zip(m.par_names, m.par)))
        sd = [env[spec.cov[s]] for s in spec.shocks]
        ctx.close("the data are passed on", np.asarray(seen["Z"]), np.asarray(Z), 0)
        ctx.close("Q is the covariance of the shocks", seen["Q"], np.diag(np.array([s * s for s in sd], dtype=object if ctx.symbolic else float)), TOL)
        Q = cov_of(ctx, m, sd)
        x, e = ctx.vec("x%d" % h, nx, -B, B), ctx.vec("e%d" % h, ne, -B, B)
        x1, flag = m.t_func(x, e)
        if reduced:
            (q, ob), fl = seen["t"](x[-nq:], e)
            ctx.close("the reduced transition is that of the states", q, x1[-nq:], TOL)
            ctx.close("and of the observables", ob, np.asarray(m.o_func(x1)), TOL)
            ctx.check("no separate measurement", seen["o"] is None)
            P = np.zeros((nx, nx), dtype=object if ctx.symbolic else float)
            P[-nq:, -nq:] = seen["P"]
            ctx.close("the initial covariance is the unconditional one", np.asarray(seen["P"]), (trans(m, P) + Q)[-nq:, -nq:], 1e-5)
        else:
            r = seen["t"](x, e)[0]
            ctx.close("the transition is the one of the model", r, x1, TOL)
            ctx.close("the measurement is the one of the model", np.asarray(seen["o"](np.array([x, x1]))), np.array([m.o_func(x), m.o_func(x1)]), TOL)
            ctx.close("the initial covariance is the unconditional one", np.asarray(seen["P"]), trans(m, np.asarray(seen["P"])) + Q, 1e-5)
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = []
    for n in ("nk3", "norm", "ma", "nkp", "square"):
        out.append(dict(name="kf/" + n, fn=h_kf, kw=dict(name=n, hist=1 if q else 2), budget=150 if q else 900, must_cover=["done"]))
    out.append(dict(name="kf/dfi", fn=h_kf, kw=dict(name="dfi", hist=0 if q else 1), budget=150 if q else 900, must_cover=["done"]))
    for n in ("nk3", "norm", "ma", "nkp"):
        for r in (True, False):
            out.append(dict(name="enkf/%s/%s" % (n, "reduced" if r else "full"), fn=h_enkf, kw=dict(name=n, reduced=r, hist=1 if q else 2), budget=150 if q else 900, must_cover=["done"]))
    return out
