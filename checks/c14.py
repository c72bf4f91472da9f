"""C14: querying parameters returns what was asked for and leaves the model alone."""

import contextlib
import io

import emcwrap
import numpy as np

from . import models as MM
from .c13 import fresh, near, TOL

LEVEL = "other"
EXPLANATION = (
    "get_par and get_cov are executed with symbolic current parameters, symbolic stored modes, a symbolic chain and symbolic vectors to be evaluated, for every kind of query. z3 decides that the returned values are the requested ones "
    "(in the order of the parameters, or of the prior), that draws are rows of the retained part of the chain, and that parameters, calibration, bound and covariance of the model are the same afterwards, also if the caller writes into the returned array."
)
BOUNDS = dict(parameters="[0.8,1.2] times the calibration, all free", queries="two in a row, any combination", chain="3 steps of 2 walkers, 2 retained")
ASSUMPTIONS = ["numerical decompositions inside the compilation are over-approximated by arbitrary results", "draws from the prior are replaced by arbitrary vectors (scipy.stats is not executed)"]


class Chain:
    def __init__(self, c, lp=None):
        self.c, self.lp = c, lp

    def get_chain(self, flat=None, **k):
        return self.c.copy()

    def get_log_prob(self, flat=None, **k):
        return self.lp.copy()


def put(ctx, m, spec, cur):
    m.set_par([cur[k] for k in m.par_names])


QUERIES = ("none", "name", "pf", "cov", "calib", "init", "mode", "best", "prior_mean", "post_mean", "post", "vector", "sub", "npar-name", "npar-pf", "npar-cov", "npar-sub", "bad", "dict", "prior")


def h_query(ctx, name, first, n=2):
    spec, m, pn, named = fresh(ctx, name)
    dt = object if ctx.symbolic else float
    cur = {k: near(ctx, "cur_" + k, v) for k, v in spec.par0.items()}
    put(ctx, m, spec, cur)
    K = ctx.vec("chain", 3 * 2 * len(pn), .1, 2.0).reshape(3, 2, len(pn))
    m.sampler = Chain(K)
    m.tune = 2
    m.bptrans = None
    m.debug = True
    # draws of the prior
    D = np.array([[near(ctx, "draw%d_%s" % (i, k), spec.par0[k]) for k in pn] for i in range(2)], dtype=dt)
    def draws(frozen, nsamples, check_func=None, **k):
        if check_func:
            for d in D[:nsamples]:
                check_func(d)
        return D[:nsamples].copy()

    names = list(m.par_names)
    full = lambda d: [d[k] for k in names]
    sub = lambda d: [d[k] for k in pn]
    over = lambda v: dict(spec.par0, **dict(zip(pn, v)))
    with MM.swap((emcwrap, "get_prior_sample", draws), (emcwrap, "get_prior", lambda *a, **k: ([1],) * 5)):
        for step in range(n):
            q = first if not step else ctx.choice("query", QUERIES)
            res = None
            if q == "none":
                res = m.get_par()
                ctx.close("current parameters", res, full(cur), TOL)
                res = m.get_par(full=False)
                ctx.close("current estimated parameters", res, sub(cur), TOL)
            elif q == "name":
                k = ctx.choice("which", names[:2] + pn[:2])
                ctx.close("the value of a parameter", m.get_par(k), cur[k], TOL)
            elif q == "pf":
                env = spec.params(cur)
                for k in spec.pf:
                    ctx.close("the value of a function of parameters", m.get_par(k), env[k], 1e-7)
            elif q == "cov":
                env = spec.params(cur)
                res = m.get_cov()
                S = [env[spec.cov[s]] for s in spec.shocks]
                ctx.close("the covariance", res, np.diag(np.array(S, dtype=dt)), TOL)
            elif q in ("calib", "init", "mode", "prior_mean"):
                res = m.get_par(q)
                ctx.close("a named set of parameters", res, full(named[q]), TOL)
                if isinstance(res, np.ndarray):
                    res[:] = 7.5
                res = m.get_par(q, full=False)
                ctx.close("a named set of estimated parameters", res, sub(named[q]), TOL)
            elif q == "best":
                res = m.get_par("best", full=False)
                ctx.close("the best known parameters are the mode", res, sub(named["mode"]), TOL)
            elif q == "post_mean":
                mean = [sum(K[i, j, p] for i in (1, 2) for j in (0, 1)) / 4 for p in range(len(pn))]
                res = m.get_par("post_mean")
                ctx.close("the mean of the retained chain", res, full(over(mean)), 1e-7)
            elif q == "post":
                res = m.get_par("post", nsamples=2)
                ctx.check("as many draws as requested", np.shape(res) == (2, len(names)))
                for d in res:
                    ctx.check("posterior draws are rows of the retained chain, other parameters are calibrated",
                              ctx.or_(*[ctx.and_(*[abs(a - b) <= TOL for a, b in zip(d, full(over(K[i, j])))]) for i in (1, 2) for j in (0, 1)]))
            elif q == "prior":
                with contextlib.redirect_stdout(io.StringIO()):
                    res = m.get_par("prior", nsamples=2)
                ctx.close("draws of the prior, other parameters are calibrated", np.array(res).reshape(-1), np.hstack([full(over(d)) for d in D]), TOL)
            elif q == "vector":
                v = {k: near(ctx, "v%d_%s" % (step, k), x) for k, x in spec.par0.items()}
                res = m.get_par(full(v), full=False)
                ctx.close("the estimated parameters of a full vector", res, sub(v), TOL)
            elif q == "sub":
                v = {k: near(ctx, "v%d_%s" % (step, k), spec.par0[k]) for k in pn}
                res = m.get_par(np.array(sub(v), dtype=dt))
                ctx.close("a vector of estimated parameters is completed with the current ones", res, full(dict(cur, **v)), TOL)
            elif q.startswith("npar"):
                v = {k: near(ctx, "v%d_%s" % (step, k), x) for k, x in spec.par0.items()}
                arg = np.array(full(v), dtype=dt)
                if q == "npar-sub":
                    arg = np.array(sub(v), dtype=dt)
                    v = dict(cur, **{k: v[k] for k in pn})
                keep = arg.copy()
                env = spec.params(v)
                if q in ("npar-name", "npar-sub"):
                    for k in names[:2] + pn[:2]:
                        ctx.close("a parameter of a given vector", m.get_par(k, npar=arg), v[k], TOL)
                if q in ("npar-pf", "npar-sub"):
                    for k in spec.pf:
                        ctx.close("a function of the parameters of a given vector", m.get_par(k, npar=arg), env[k], 1e-7)
                if q == "npar-cov":
                    res = m.get_cov(npar=arg)
                    ctx.close("the covariance of a given vector", np.diag(np.asarray(res)), [env[spec.cov[s]] for s in spec.shocks], TOL)
                ctx.close("given vectors are not modified", arg, keep, 0)
            elif q == "bad":
                try:
                    m.get_par("nonsense")
                    ctx.fail("unknown names are rejected")
                except KeyError:
                    pass
            elif q == "dict":
                res = m.get_par(asdict=True, full=False)
                ctx.check("names", list(res) == pn)
                ctx.close("a dictionary of the estimated parameters", list(res.values()), sub(cur), 5.1e-6)
                pd_, pf_ = m.get_par(asdict=True)
                ctx.check("all names", list(pd_) == names and list(pf_) == list(spec.pf))
                ctx.close("a dictionary of all parameters", list(pd_.values()), full(cur), 5.1e-6)
                env = spec.params(cur)
                ctx.close("a dictionary of all functions of parameters", list(pf_.values()), [env[k] for k in spec.pf], 5.2e-6)
            # the caller owns the result
            if isinstance(res, np.ndarray):
                res[...] = 7.5
            env = spec.params(cur)
            ctx.close("current parameters are unchanged", np.asarray(m.par), full(cur), TOL)
            ctx.close("the calibration is unchanged", np.asarray(m.par_fix), full(spec.par0), 0)
            ctx.close("the stored mode is unchanged", np.asarray(m.fdict["mode_x"]), sub(named["mode"]), 0)
            ctx.close("the bound is unchanged", m.x_bar, env["x_bar"], TOL)
            ctx.close("the covariance is unchanged", np.diag(np.asarray(m.get_cov())), [env[spec.cov[s]] for s in spec.shocks], TOL)
            st = np.array([.3, -.2, .7, .1, .4][: len(m.vv)])
            at = lambda n_, d: st[list(m.vv).index(n_)]
            ctx.close("the measurement equations are unchanged", np.asarray(m.o_func(st)), [spec.ev(f, env, at) for f in spec.obs.values()], 1e-7)
            ctx.close("the chain is unchanged", np.asarray(m.sampler.c).reshape(-1), np.asarray(K).reshape(-1), 0)
        ctx.cover("done")


def instances(tier):
    n = 2 if tier == "quick" else 3
    out = []
    for q in QUERIES:
        out.append(dict(name="nkp/" + q, fn=h_query, kw=dict(name="nkp", first=q, n=n), budget=100 if tier == "quick" else 900, must_cover=["done"]))
    for q in ("post", "calib", "sub"):
        out.append(dict(name="tiny/" + q, fn=h_query, kw=dict(name="tiny", first=q, n=n), budget=100 if tier == "quick" else 900, must_cover=["done"]))
    return out
