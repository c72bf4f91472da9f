"""C17: estimation runs sample from the posterior, keep what was stored before, and record the mode."""

import contextlib
import io
import os
import types

import emcee
import emcwrap
import numpy as np

from . import models as MM
from .c13 import near

LEVEL = "other"
EXPLANATION = (
    "mcmc is executed with a symbolic posterior density, symbolic initial values and a sampler stand-in that returns a symbolic chain with symbolic log densities (argmax forks on every order of the densities). For all combinations of resuming, appending, tempering, backends, transformations and "
    "previously existing files z3 decides: what is sampled is the posterior under the requested temperature, walkers start where requested (or around the mode, or the prior mean under tempering), stored chains are not touched when resuming or appending, and the mode is the draw with the highest density in the retained part."
)
BOUNDS = dict(chain="3 steps of 2 walkers, 1 or 2 retained (the last fifth by default)", parameters="4 estimated parameters", density="any real numbers in [-20,20]")
ASSUMPTIONS = ["the samplers (packages emcee and emcwrap), HDF files and deletion of files are replaced by stand-ins that record their arguments"]
TOL = 1e-9


class FakeSampler:
    def __init__(self, c, lp):
        self.c, self.lp = c, lp
        self.acceptance_fraction = np.array([.2, .3])

    def get_chain(self, flat=None, **k):
        return self.c.copy()

    def get_log_prob(self, flat=None, **k):
        return self.lp.copy()


def h_mcmc(ctx, name, walkers=2, backend="default", how="fresh", tempered=False, transform=False, default_tune=False):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.terms(ctx, MM.model(name, None, 1, 0))
    pn = list(spec.prior)
    nd = len(pn)
    dt = object if ctx.symbolic else float
    mode0 = np.array([near(ctx, "mode_" + k, spec.par0[k]) for k in pn], dtype=dt)
    has_mode = ctx.choice("has_mode", (True, False))
    init = np.array([near(ctx, "init_" + k, spec.par0[k]) for k in pn], dtype=dt)
    m.fdict = dict(seed=0, init_value=list(init), description="text")
    if has_mode:
        m.fdict["mode_x"] = mode0.copy()
        m.fdict["mode_f"] = -3.0
    m.ndim = nd
    m.debug = True
    m.pool = None
    m.description = None
    m.path = os.environ.get("VERIF_SCRATCH", "/tmp")
    m.bptrans = (lambda p: np.array(p, dtype=dt) * 0.5 + 1.0) if transform else None
    calls = []

    def lprob(par, **k):
        calls.append((par, k))
        return sum(x * (i + 1) for i, x in enumerate(par)) + 10 * k.get("temp", 1)

    m.lprob = lprob
    m.filter = types.SimpleNamespace(name=ctx.choice("filter", ("KalmanFilter", "TEnKF")))
    K = ctx.vec("chain", 3 * 2 * nd, -2, 2).reshape(3, 2, nd)
    LP = ctx.vec("lp", 6, -20, 20).reshape(3, 2)
    rec = dict(removed=[], reset=[], backends=[])

    class Backend:
        def __init__(self, f, *a, **k):
            self.f = f
            rec["backends"].append(f)

        def reset(self, *a):
            rec["reset"].append(a)

    def run_mcmc(lp, nsteps=None, p0=None, **k):
        rec.update(lp=lp, nsteps=nsteps, p0=p0, k=k)
        return FakeSampler(K, LP)

    exists = ctx.choice("exists", (False, True))
    stand_ins = MM.swap((emcwrap, "run_mcmc", run_mcmc), (emcee.backends, "HDFBackend", Backend), (os.path, "exists", lambda p: exists), (os, "remove", rec["removed"].append), (os, "unlink", rec["removed"].append))
    kw = dict(nsteps=7 if default_tune else 11, verbose=False, seed=3)
    if not default_tune:
        kw["tune"] = ctx.choice("tune", (1, 2))
    given = None
    if how == "given" or how == "append":
        given = ctx.vec("p0", walkers * nd, .1, 2).reshape(walkers, nd)
        kw["p0"] = given
    elif how == "fresh":
        kw["nwalks"] = walkers
    if how == "resume":
        kw["resume"] = True
    if how == "append":
        kw["append"] = True
    if tempered:
        kw["temp"] = .3
    if backend == "named":
        kw["backend"] = "/nowhere/some.h5"
    elif backend == "none":
        kw["backend"] = False
    elif backend == "suffix":
        kw["suffix"] = "_two.h5"
    keep = None if given is None else given.copy()
    with contextlib.redirect_stdout(io.StringIO()), stand_ins:
        m.mcmc(**kw)
    # what is sampled
    x = np.array([ctx.real("x_%d" % i, -3, 3) for i in range(nd)], dtype=dt)
    calls.clear()
    v = rec["lp"](x)
    T = .3 if tempered else 1
    ctx.close("the sampler explores the posterior under the requested temperature", v, sum(e * (i + 1) for i, e in enumerate(x)) + 10 * T, TOL)
    ctx.close("at the parameters of the walkers", calls[0][0], x, 0)
    ctx.check("as many steps as requested", rec["nsteps"] == kw["nsteps"])
    ctx.check("prior, transformation and temperature are passed on", rec["k"].get("priors") is m.prior and rec["k"].get("prior_transform") is m.bptrans and rec["k"].get("temp") == T and bool(rec["k"].get("resume")) == (how == "resume"))
    # initial values
    p0 = rec["p0"]
    if given is not None:
        ctx.close("walkers start where requested", p0, given, 0)
        ctx.close("initial values are not modified", given, keep, 0)
    elif how == "fresh":
        ctx.check("one initial value per walker", np.shape(p0) == (walkers, nd))
        if tempered:
            pri = {k: list(v) for k, v in spec.prior.items()}
            base = [(.5 * (p[4] + p[5]) if p[3] == "uniform" else p[4]) for p in pri.values()]
        else:
            base = mode0 if has_mode else init
        for row in np.asarray(p0):
            ctx.le("walkers start around the best known parameters (the prior mean under tempering)", [abs(a - b) for a, b in zip(row, base)], [abs(b) * .01 for b in base], 1e-9)
        ctx.cover("fresh")
    else:
        ctx.check("a resumed run continues with the stored walkers", p0 is None)
    # storage
    b = rec["k"].get("backend")
    keepold = how in ("resume", "append")
    if backend == "none":
        ctx.check("nothing is stored unless requested", b is None and not rec["backends"] and not rec["removed"])
    else:
        f = {"named": "/nowhere/some.h5", "suffix": os.path.join(m.path, m.name + "_two.h5")}.get(backend, os.path.join(m.path, m.name + "_sampler.h5"))
        ctx.check("draws are stored in the requested file", len(rec["backends"]) == 1 and str(rec["backends"][0]) == f and b is not None and b.f == rec["backends"][0], (f, rec["backends"]))
        if keepold:
            ctx.check("stored draws are kept when resuming or appending", not rec["removed"] and not rec["reset"])
            ctx.cover("kept")
        else:
            ctx.check("a new run starts with an empty backend of the right size", rec["reset"] == [(walkers, nd)], rec["reset"])
            ctx.check("no other file is deleted", all(r == f for r in rec["removed"]))
        if backend == "named":
            ctx.check("the name of the backend is remembered", str(m.fdict["backend_file"]) == f)
    # results
    tune = kw.get("tune") or 1
    ctx.check("number of retained steps", m.tune == tune and m.get_tune == tune)
    ctx.check("sampler and temperature are remembered", isinstance(m.sampler, FakeSampler) and m.temp == T)
    trans = (lambda p: [e * 0.5 + 1.0 for e in p]) if transform else list
    rows = [(i, j) for i in range(3 - tune, 3) for j in range(2)]
    if tempered:
        ctx.check("a tempered run does not determine the mode", ("mode_x" in m.fdict) == has_mode)
        if has_mode:
            ctx.close("nor change it", m.fdict["mode_x"], mode0, 0)
    else:
        mx, mf = m.fdict["mode_x"], m.fdict["mode_f"]
        for r in rows:
            ctx.le("the density at the mode is the highest of the retained draws", LP[r], mf, TOL)
        ctx.check("the mode is the draw with this density", ctx.or_(*[ctx.and_(abs(LP[r] - mf) <= TOL, *[abs(a - c) <= TOL for a, c in zip(mx, trans(K[r]))]) for r in rows]))
        ctx.close("the mode is available as parameters", m.get_par("mode", full=False), mx, TOL)
        ctx.cover("mode")
    ctx.close("the chain is returned in terms of the parameters", np.asarray(m.get_chain()).reshape(-1), np.array([trans(K[i, j]) for i in range(3) for j in range(2)], dtype=dt).reshape(-1), TOL)
    ctx.close("the log densities are returned", np.asarray(m.get_log_prob()).reshape(-1), LP.reshape(-1), 0)
    ctx.cover("done")


def instances(tier):
    out = []

    def add(iname, cov=(), **kw):
        out.append(dict(name=iname, fn=h_mcmc, kw=dict(name="nkp", **kw), budget=120 if tier == "quick" else 600, must_cover=["done"] + list(cov)))

    add("fresh", cov=["fresh", "mode"])
    add("fresh/3", cov=["fresh", "mode"], walkers=3)
    add("fresh/default_tune", cov=["fresh", "mode"], default_tune=True)
    add("fresh/tempered", cov=["fresh"], tempered=True)
    add("fresh/transformed", cov=["mode"], transform=True)
    add("fresh/none", cov=["mode"], backend="none")
    add("fresh/suffix", cov=["mode"], backend="suffix")
    add("given/named", cov=["mode"], how="given", backend="named")
    add("given/default", cov=["mode"], how="given", default_tune=True)
    add("append/default", cov=["kept"], how="append")
    add("append/named", cov=["kept"], how="append", backend="named")
    add("resume/default", cov=["kept"], how="resume", default_tune=True)
    add("resume/named", cov=["kept"], how="resume", backend="named", tempered=True)
    add("resume/transformed", cov=["kept"], how="resume", transform=True)
    return out
