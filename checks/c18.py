"""C18: whatever is reported about the posterior is computed from the retained part of the chain."""

import os
import types

import emcwrap
import numpy as np
import pandas as pd

from . import models as MM
from .c17 import FakeSampler

LEVEL = "other"
EXPLANATION = (
    "All consumers of a chain (posterior mean, draws, samples, summaries, marginal data density, plots, export) are executed on a symbolic chain with symbolic log densities. z3 decides that each of them receives exactly the draws of the retained steps, "
    "in the order of the estimated parameters, in terms of the parameters (the prior transformation applied once), and that the chain is not modified."
)
BOUNDS = dict(chain="4 steps of 2 walkers of 4 parameters", tune="1 to 4 steps")
ASSUMPTIONS = ["summary tables, plots and density estimators of the package emcwrap and the csv writer are replaced by stand-ins that record their arguments"]
TOL = 1e-9
S, W = 4, 2


def setup(ctx, transform):
    spec = MM.Spec("nkp")
    MM._CACHE.pop("nkp", None)
    m = MM.terms(ctx, MM.model("nkp", None, 1, 0))
    pn = list(spec.prior)
    nd = len(pn)
    K = ctx.vec("chain", S * W * nd, -2, 2).reshape(S, W, nd)
    LP = ctx.vec("lp", S * W, -20, 20).reshape(S, W)
    m.debug, m.pool = True, None
    m.fdict = dict(prior_names=pn)
    tr = (lambda p: p * 0.5 + 1.0) if transform else (lambda p: p)
    m.bptrans = tr if transform else None
    m.sampler = FakeSampler(K, LP)
    where = ctx.choice("tune_from", ("attribute", "stored"))
    tune = ctx.choice("tune", (1, 2, 3, 4))
    if where == "attribute":
        m.tune = tune
        m.fdict["tune"] = 1 if tune > 1 else 2
    else:
        m.fdict["tune"] = tune
    return spec, m, pn, K, LP, np.asarray(tr(K)), tune


def flat(A, tune):
    return [A[i, j] for i in range(S - tune, S) for j in range(W)]


def is_row(ctx, d, rows):
    return ctx.or_(*[ctx.and_(*[abs(a - b) <= TOL for a, b in zip(d, r)]) for r in rows])


def h_use(ctx, what, transform=False):
    spec, m, pn, K, LP, C, tune = setup(ctx, transform)
    nd = len(pn)
    rows = flat(C, tune)
    rec = {}

    def rec_call(name, ret=None):
        def f(*a, **k):
            rec[name] = a, k
            return ret

        return f

    if what == "mean":
        from pydsge.stats import post_mean

        mu = [sum(r[p] for r in rows) / len(rows) for p in range(nd)]
        ctx.close("the posterior mean", post_mean(m), mu, TOL)
        t2 = ctx.choice("other_tune", (1, 2, 3))
        mu2 = [sum(r[p] for r in flat(C, t2)) / len(flat(C, t2)) for p in range(nd)]
        ctx.close("the posterior mean of a given number of steps", post_mean(m, tune=t2), mu2, TOL)
        G = ctx.vec("given", 2 * 2 * nd, -2, 2).reshape(2, 2, nd)
        ctx.close("the mean of a given chain", post_mean(m, chain=G), [sum(G[i, j, p] for i in range(2) for j in range(2)) / 4 for p in range(nd)], TOL)
        par = m.get_par("post_mean")
        ctx.close("as parameters", par, [dict(zip(pn, mu)).get(k, spec.par0[k]) for k in m.par_names], TOL)
    elif what == "draws":
        seed = ctx.choice("seed", (0, 1, 2))
        n = 5
        from pydsge.mpile import posterior_sampler

        P = posterior_sampler(m, n, seed=seed)
        ctx.check("as many draws as requested", np.shape(P) == (n, nd))
        for d in P:
            ctx.check("draws are retained draws of the chain", is_row(ctx, d, rows))
        P2 = posterior_sampler(m, n, seed=seed)
        ctx.close("the same seed gives the same draws", np.array(P2).reshape(-1), np.array(P).reshape(-1), 0)
    elif what == "sample":
        np.random.seed(ctx.choice("seed", (0, 1, 2)))
        n = ctx.choice("size", (1, 2, 3, 5, 8))
        P = m.get_sample(n)
        rec_steps = -(-n // W)
        pool = flat(C, rec_steps)
        ctx.check("as many draws as requested", np.shape(P) == (n, nd))
        for d in P:
            ctx.check("a sample contains the most recent draws", is_row(ctx, d, pool))
        if n == len(pool):
            for r in pool:
                ctx.check("every draw is used once", is_row(ctx, r, list(P)))
        G = ctx.vec("given", 2 * 3 * nd, -2, 2).reshape(2, 3, nd)
        n = ctx.choice("size2", (2, 6))
        P = m.get_sample(n, chain=G)
        for d in P:
            ctx.check("a sample of a given chain", is_row(ctx, d, [G[i, j] for i in range(2 - -(-n // 3), 2) for j in range(3)]))
        try:
            m.get_sample(S * W + 1)
            ctx.fail("samples larger than the chain are rejected")
        except Exception:
            pass
    elif what == "summary":
        with MM.swap((emcwrap, "mcmc_summary", rec_call("s"))):
            m.mcmc_summary()
            (ch, lp), k = rec["s"]
            ctx.close("the summary uses the retained draws", np.asarray(ch).reshape(-1), np.array(rows).reshape(-1), TOL)
            ctx.close("and their densities", np.asarray(lp).reshape(-1), np.array(flat(LP, tune)).reshape(-1), TOL)
            ctx.check("with the prior of the model", k.get("priors") is m.prior)
            t2 = ctx.choice("other_tune", (1, 3))
            m.mcmc_summary(tune=t2)
            (ch, lp), k = rec["s"]
            ctx.close("the summary of a given number of steps", np.asarray(ch).reshape(-1), np.array(flat(C, t2)).reshape(-1), TOL)
            ctx.close("the densities of a given number of steps", np.asarray(lp).reshape(-1), np.array(flat(LP, t2)).reshape(-1), TOL)
    elif what == "mdd":
        with MM.swap((emcwrap, "mdd_laplace", rec_call("laplace", 1.0)), (emcwrap, "mdd_harmonic_mean", rec_call("mhm", 2.0))):
            meth = ctx.choice("method", ("laplace", "lp", "mhm", "hess"))
            t2 = ctx.choice("other_tune", (None, 1, 3))
            v = m.mdd(method=meth, tune=t2)
            (ch, lp), k = rec["mhm" if meth == "mhm" else "laplace"]
            ctx.check("the requested method is used", v == (2.0 if meth == "mhm" else 1.0) and len(rec) == 1)
            ctx.close("the marginal density uses the retained draws", np.asarray(ch).reshape(-1), np.array(flat(C, t2 or tune)).reshape(-1), TOL)
            ctx.check("one draw per row", np.shape(ch) == (len(flat(C, t2 or tune)), nd))
            ctx.close("and their densities, in the same order", np.asarray(lp).reshape(-1), np.array(flat(LP, t2 or tune)).reshape(-1), TOL)
            ctx.check("with the hessian if requested", meth == "mhm" or bool(k.get("calc_hess")) == (meth == "hess"))
            try:
                m.mdd(method="nonsense")
                ctx.fail("unknown methods are rejected")
            except NotImplementedError:
                pass
    elif what == "plots":
        with MM.swap((emcwrap, "traceplot", rec_call("t")), (emcwrap, "posteriorplot", rec_call("p"))):
            m.traceplot()
            m.posteriorplot()
        for n in "tp":
            (ch,), k = rec[n]
            ctx.close("plots show the chain", np.asarray(ch).reshape(-1), C.reshape(-1), TOL)
            ctx.check("with the names of the parameters and the retained steps", list(k["varnames"]) == pn and k["tune"] == tune)
    elif what == "csv":
        def to_csv(self, path=None, *a, **k):
            rec["csv"] = self, path

        with MM.swap((pd.DataFrame, "to_csv", to_csv)):
            m.posterior2csv()
            df, path = rec["csv"]
            ctx.check("the default file", str(path) == os.path.join(m.path, m.name + "_posterior.csv"))
            ctx.check("one row per parameter", list(df.index) == pn)
            ctx.close("all retained draws are exported", df.to_numpy().T.reshape(-1), np.array(rows).reshape(-1), TOL)
            t2 = ctx.choice("other_tune", (1, 3))
            m.posterior2csv(path="somewhere.csv", tune=t2)
            df, path = rec["csv"]
            ctx.check("the requested file", str(path) == "somewhere.csv")
            ctx.close("a given number of steps is exported", df.to_numpy().T.reshape(-1), np.array(flat(C, t2)).reshape(-1), TOL)
    ctx.close("the chain is not modified", np.asarray(m.sampler.c).reshape(-1), np.asarray(K).reshape(-1), 0)
    ctx.close("the chain can be read again", np.asarray(m.get_chain()).reshape(-1), C.reshape(-1), TOL)
    ctx.cover("done")


def instances(tier):
    out = []
    for w in ("mean", "draws", "sample", "summary", "mdd", "plots", "csv"):
        for t in (False, True):
            out.append(dict(name="%s/%s" % (w, "transformed" if t else "plain"), fn=h_use, kw=dict(what=w, transform=t), budget=100, must_cover=["done"]))
    return out
