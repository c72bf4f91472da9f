"""C16: the posterior density is prior plus tempered likelihood of exactly the proposed parameters."""

import emcwrap
import numpy as np
import pandas as pd

import pydsge.filtering

from . import models as MM
from .c13 import near

LEVEL = "other"
EXPLANATION = (
    "The function `lprob` that prep_estim builds is executed on symbolic proposals, with a symbolic prior density and a likelihood stand-in that returns a symbolic function of everything a likelihood may depend on: the compiled parameters, the bound, the shock covariance of the filter, "
    "the measurement equation and the state of the random number generator. z3 decides that the result is prior + temp * likelihood at exactly the proposed parameters (mapped through the prior transformation if requested), minus infinity for failures and outside of the prior, for every sequence of proposals."
)
BOUNDS = dict(parameters="[0.8,1.2] times the calibration", sequences="two proposals, then the first again", failures="in any evaluation: exceptions and warnings of five kinds, infinite priors")
ASSUMPTIONS = ["the filter itself (econsieve) and scipy's prior densities are replaced by stand-ins; numerical decompositions inside the compilation return arbitrary values"]
TOL = 1e-7
ERRS = (ValueError, ZeroDivisionError, np.linalg.LinAlgError, RuntimeWarning, IndexError)


def h_lprob(ctx, name, linear, transform, seq=("a", "b", "a"), outcome=0):
    ctx.mode(havoc=True, poly=False)
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.terms(ctx, MM.model(name, None, 1, 0))
    pn = list(spec.prior)
    dt = object if ctx.symbolic else float
    m.data = pd.DataFrame(np.zeros((3, len(m.observables))), columns=m.observables)
    # other than estimated parameters may have been changed before
    if ctx.choice("changed", (False, True)):
        other = [k for k in spec.par0 if k not in pn]
        m.set_par(other[0], spec.par0[other[0]] * .9)
    log = dict(prior=[], ll=[])
    state = {}
    w = np.array([1.0 + i / 7 for i in range(len(m.par_names))])

    def lprior(p):
        log["prior"].append(np.array(p, dtype=dt))
        return state["lp"]

    bp = lambda p: np.array([0.25 * x + 0.5 * spec.par0[k] + (0.25 * x if i % 2 else 0.25 * spec.par0[k]) for i, (k, x) in enumerate(zip(pn, p))], dtype=dt)

    def get_prior(prior, **k):
        return [None] * len(pn), lprior, bp, [None] * len(pn), ([0.0] * len(pn), [9.0] * len(pn))

    def ll_of(par, env, Q, obs0, rnd):
        return sum(a * b for a, b in zip(par, w)) + 3.0 * env["x_bar"] + sum(Q) + sum(obs0) + rnd

    def get_ll(self, **k):
        log["ll"].append(1)
        np.random.seed(np.random.randint(1000))
        rnd = float(np.random.rand())
        err = state["err"]
        if err is not None:
            raise err("no")
        obs0 = np.asarray(self.o_func(np.ones(len(self.vv))))
        return ll_of(list(self.par), dict(x_bar=self.x_bar), list(np.diag(np.asarray(self.filter.Q))), list(obs0), rnd) + state["noise"]

    with MM.swap((emcwrap, "get_prior", get_prior), (pydsge.filtering, "get_ll", get_ll)):
        seed = 5
        np.random.seed(99)
        m.prep_estim(linear=linear, N=4, l_max=2, k_max=1, seed=seed, dry_run=False, verbose=False, debug=True, use_prior_transform=transform, load_R=False)
        np.random.seed(seed)
        np.random.seed(np.random.randint(1000))
        rnd = float(np.random.rand())
        P = {t: np.array([near(ctx, "%s_%s" % (t, k), spec.par0[k]) for k in pn], dtype=dt) for t in sorted(set(seq))}
        LP = {t: ctx.real("lp_" + t, -20, 20) for t in P}
        NO = {t: ctx.real("ll_" + t, -20, 20) for t in P}
        for n, t in enumerate(seq):
            np.random.seed(n + 1)
            before = np.random.get_state()
            temp = ctx.choice("temp%d" % n, (1, 0.3, 0)) if n != 1 else 1
            kind = ctx.choice("kind%d" % n, ("ok", "prior", "fail")) if n < 2 else "ok"
            err = None
            if kind == "fail":
                err = ERRS[(n + outcome) % len(ERRS)]
            state.update(lp=-np.inf if kind == "prior" else LP[t], err=err, noise=NO[t])
            keep = P[t].copy()
            log["prior"].clear(), log["ll"].clear()
            kw = dict(temp=temp) if temp != 1 else {}
            res = m.lprob(P[t], verbose=False, **kw)
            after = np.random.get_state()
            ctx.check("random numbers drawn elsewhere are not affected", before[0] == after[0] and bool((before[1] == after[1]).all()) and before[2:] == after[2:])
            ctx.close("the proposal is not modified", P[t], keep, 0)
            p = bp(P[t]) if transform else P[t]
            ctx.check("the prior is evaluated once", len(log["prior"]) == 1)
            ctx.close("the prior is evaluated at the proposal", log["prior"][0], p, TOL)
            if kind == "prior":
                ctx.cover("outside")
                ctx.check("outside of the prior the density is zero", not (ctx.symbolic and isinstance(res, ctx.core.Sym)) and res == -np.inf)
                ctx.check("the likelihood is not evaluated outside of the prior", not log["ll"])
                continue
            if kind == "fail" and temp:
                ctx.cover("failed")
                ctx.check("failures have density zero", not (ctx.symbolic and isinstance(res, ctx.core.Sym)) and res == -np.inf)
                continue
            par = dict(spec.par0, **dict(zip(pn, p)))
            env = spec.params(par)
            vv = list(m.vv)
            obs0 = [spec.ev(f, env, lambda nm, d: 1.0) for f in spec.obs.values()]
            sd = [env[spec.cov[s]] for s in spec.shocks]
            want = ll_of([par[k] for k in m.par_names], env, [s * s for s in sd], obs0, rnd) + NO[t]
            ctx.close("prior plus tempered likelihood at the proposed parameters", res, LP[t] + (temp * want if temp else 0.0), 1e-6)
            ctx.cover("value")
        ctx.close("the calibration is unchanged", np.asarray(m.par_fix), [spec.par0[k] for k in m.par_names], 0)
    ctx.cover("done")


def h_interrupt(ctx, name):
    spec = MM.Spec(name)
    m = MM.terms(ctx, MM.model(name, None, 1, 0))
    m.data = pd.DataFrame(np.zeros((3, len(m.observables))), columns=m.observables)

    def get_ll(*a, **k):
        raise KeyboardInterrupt

    def get_prior(prior, **k):
        return [1], lambda p: -1.0, None, [1], ([0], [1])

    with MM.swap((emcwrap, "get_prior", get_prior), (pydsge.filtering, "get_ll", get_ll)):
        m.prep_estim(linear=True, seed=1, dry_run=False, verbose=False, debug=True)
        x = np.array([spec.par0[k] for k in spec.prior])
        s = ctx.real("scale", .9, 1.1)
        p = x * s
        if ctx.symbolic:
            ctx.mode(havoc=True, poly=False)
        try:
            m.lprob(p, verbose=False)
            ctx.fail("an interrupt by the user is not swallowed")
        except KeyboardInterrupt:
            ctx.check("an interrupt by the user is not swallowed", True)
            ctx.cover("done")


def instances(tier):
    out = []
    q = tier == "quick"
    for lin in (True, False):
        for tr in (False, True):
            out.append(dict(name="nkp/%s/%s" % ("linear" if lin else "ensemble", "transformed" if tr else "plain"), fn=h_lprob, kw=dict(name="nkp", linear=lin, transform=tr, outcome=int(lin) + 2 * int(tr)), budget=150 if q else 600, must_cover=["done", "value", "failed", "outside"]))
    out.append(dict(name="dfi/linear/plain", fn=h_lprob, kw=dict(name="dfi", linear=True, transform=False, seq=("a", "b"), outcome=4), budget=150 if q else 600, must_cover=["done", "value", "failed", "outside"]))
    out.append(dict(name="interrupt", fn=h_interrupt, kw=dict(name="nkp"), budget=60, must_cover=["done"]))
    return out
