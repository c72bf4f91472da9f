"""C30: samples from the prior are valid draws of the declared distributions."""

import contextlib
import io

import emcwrap
import numpy as np

import pydsge.gensys

from . import models as MM
from .c13 import near
from .c26 import Sched

LEVEL = "other"
EXPLANATION = (
    "prior_sampler (and get_par('prior')) are executed, together with the loop of the dependency emcwrap, on distributions whose draws are arbitrary values in a box, as a function of their generator's seed. Solutions (likelihoods) "
    "exist below an arbitrary threshold of a draw and of the current value of a parameter that is not estimated. z3 decides that every returned vector consists of one draw of each declared distribution, in the order of the estimated parameters "
    "and of one attempt, that it is the first of its attempts that is valid, that validity is judged at exactly these values and the current values of all others, that samples depend on the seed only, and that exhausted attempts are reported; "
    "for serial evaluation and for workers with arbitrary schedules."
)
BOUNDS = dict(samples="two", attempts="two or three", draws="[0.8,1.2] times the calibration", threshold="same box")
ASSUMPTIONS = ["scipy's distributions, the compilation of the model and the posterior density are stand-ins", "that generators produce the declared distributions is a property of scipy (see N05)"]


class Fail(Exception):
    pass


def h_draw(ctx, name, mode, attempts=2, n=2, setup=("serial",), again=False, how="sampler"):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    with MM.concretely():
        m = MM.model(name, None, 1, 0)
    m = MM.terms(ctx, m)
    m.fdict = {}
    pn = list(spec.prior)
    nd = len(pn)
    log, drawn, seen = {}, {}, []

    class D:
        def __init__(self, i, tag=""):
            self.i, self.tag = i, tag

        def __deepcopy__(self, memo):
            return self

        def rvs(self, size=None, random_state=None):
            k = (self.i, int(random_state), self.tag)
            if k not in drawn:
                v = near(ctx, "draw_%d_%d%s" % k, spec.par0[pn[self.i]])
                # continuous distributions: no value is drawn twice
                for o, w in drawn.items():
                    if o[0] == self.i:
                        ctx.assume((v - w > 1e-9) | (w - v > 1e-9))
                drawn[k] = v
            return drawn[k]

    def get_prior(prior, **k):
        names = [str(p) for p in prior]
        ctx.check("the prior is that of the model", names == pn)
        return [D(i) for i in range(nd)], lambda p: 0.0, (lambda p: np.array(p) * .5), [None] * nd, ([0] * nd, [1] * nd)

    # validity depends on the second element of the draw, and a parameter which is not estimated
    fixed = [k for k in m.par_names if k not in pn and k in spec.par0][0]
    fv = near(ctx, "fixed", spec.par0[fixed])
    thr = ctx.real("thr", .8, 1.2) * spec.par0[pn[1]]
    cut = ctx.real("cut", .8, 1.2) * abs(spec.par0[fixed])
    valid = lambda v, f: (v[1] <= thr) & (f <= cut)

    def gen_sys(self, par=None, **k):
        par = [spec.par0[q] for q in self.par_names] if par is None else list(par)
        self.par = par
        if not valid([par[self.par_names.index(q)] for q in pn], par[self.par_names.index(fixed)]):
            raise ValueError("no solution")
        return self

    judged = fv
    if how == "get_par":
        # what is not estimated has its calibrated value; the current parameters (restored afterwards) are solvable
        judged = spec.par0[fixed]
        ctx.assume(fv <= cut)
        ctx.assume(spec.par0[pn[1]] <= thr)

    kinds = ("inf", "error")

    def lprob(par, linear=None, verbose=False, temp=1, use_prior_transform=True):
        par = [2.0 * x for x in par] if use_prior_transform else list(par)
        if temp != 1 or linear not in (None, False):
            raise AssertionError("another density")
        if not valid(par, fv):
            if kind == "error":
                raise Fail("no likelihood")
            return -np.inf
        return 1.5

    kind = ctx.choice("kind of failure", kinds) if mode == "likelihood" else None
    # the current state of the model
    full = dict(spec.par0)
    full[fixed] = fv
    cur = [full[q] for q in m.par_names]
    m.par = list(cur)
    m.pool = None
    m.debug = True
    if mode == "likelihood":
        if ctx.choice("prepared", (True, False)):
            m.ndim, m.lprob = nd, lprob
        else:
            if hasattr(m, "ndim"):
                del m.ndim

            def prep(**k):
                m.ndim, m.lprob = nd, lprob
                m.fdict["frozen_prior"] = [D(i) for i in range(nd)]

            m.prep_estim = prep
    elif ctx.choice("stored prior", (False, True)):
        m.fdict["frozen_prior"] = [D(i) for i in range(nd)]
    seed = ctx.choice("seed", (3, 4))
    kw = dict(seed=seed, max_attempts=attempts, verbose=False)
    if mode == "likelihood":
        kw["check_likelihood"] = True
    elif mode == "none":
        kw["try_parameter"] = False

    def call():
        m.par = list(cur)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                if how == "get_par":
                    return m.get_par("prior", nsamples=n, **dict(kw, full=False)), None
                return m.prior_sampler(n, **kw), None
        except (ValueError, Fail) as e:
            return None, e

    with MM.swap((emcwrap, "get_prior", get_prior), (pydsge.gensys, "gen_sys_from_yaml", gen_sys)), Sched(ctx, m) as env:
        env.few = True
        st = ctx.choice("setup", setup)
        if st == "pool":
            m.debug, m.pool = False, env.Pool(2)
        elif st == "none":
            m.debug = False
        rs = np.random.get_state()
        res, err = call()
        if again:
            m.debug, m.pool = True, None
            np.random.seed(99)
            res2, err2 = call()
            ctx.check("samples depend on the seed only (failures)", (err is None) == (err2 is None))
            if err is None:
                ctx.close("samples depend on the seed only", np.asarray(res), np.asarray(res2), 0)
    if how == "get_par":
        ctx.close("the current parameters are kept", list(m.par), cur, 0)
    # groups of one draw of each distribution
    tries = {}
    for (i, s, t), v in drawn.items():
        tries.setdefault(s - i, {})[i] = v
    groups = [g for g in tries.values() if len(g) == nd]
    ok = [valid([g[i] for i in range(nd)], judged) if mode != "none" else True for g in groups]
    if err is not None:
        ctx.check("a failure is reported only if all attempts of a sample fail", mode != "none")
        nbad = sum(1 for o in ok if not o)
        ctx.check("after the permitted number of attempts", nbad >= attempts)
        ctx.cover("reported")
        return
    res = np.asarray(res)
    ctx.check("one vector per sample", res.shape == (n, nd))
    used = []
    for j in range(n):
        hit = [q for q, g in enumerate(groups) if all(g[i] is res[j, i] or _same(g[i], res[j, i]) for i in range(nd))]
        ctx.check("each vector has one draw of each declared distribution, in the order of the estimated parameters", len(hit) >= 1)
        used += hit[:1]
        if mode != "none":
            ctx.check("each vector is valid", valid(list(res[j]), judged))
    ctx.check("samples are different draws", len(set(used)) == n)
    # every attempt that is not returned failed
    for q, o in enumerate(ok):
        if q not in used:
            ctx.check("valid draws are not dropped", ~o if not isinstance(o, bool) else not o)
    ctx.cover("done")


def _same(a, b):
    if hasattr(a, "lin") or hasattr(b, "lin"):
        return hasattr(a, "lin") and hasattr(b, "lin") and a.lin is not None and a.lin == b.lin and a.c == b.c
    return float(a) == float(b)


def instances(tier):
    q = tier == "quick"
    out = []

    def add(inst, fn, cov=("done",), **kw):
        out.append(dict(name=inst, fn=fn, kw=kw, budget=200 if q else 900, must_cover=list(cov)))

    for n in ("nkp", "nkb"):
        add("solve/" + n, h_draw, name=n, mode="solve", cov=("done", "reported"))
        add("likelihood/" + n, h_draw, name=n, mode="likelihood", cov=("done", "reported"))
        add("none/" + n, h_draw, name=n, mode="none")
    add("again", h_draw, name="nkp", mode="solve", again=True, setup=("serial", "pool", "none"), cov=("done", "reported"))
    add("workers/likelihood", h_draw, name="nkp", mode="likelihood", setup=("serial", "pool", "none"), cov=("done", "reported"))
    add("attempts", h_draw, name="nkp", mode="solve", attempts=3 if q else 4, cov=("done", "reported"))
    add("get_par", h_draw, name="nkp", mode="solve", how="get_par", cov=("done", "reported"))
    return out
