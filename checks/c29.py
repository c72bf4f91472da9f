"""C29: estimations are set up as requested."""

import contextlib
import io

import emcwrap
import numpy as np
import pandas as pd
import pathos.pools
import pathos.multiprocessing

import pydsge.filtering

from . import models as MM
from .c13 import near

LEVEL = "other"
EXPLANATION = (
    "prep_estim is executed with symbolic prior means, measurement errors, initial values and bounds for every combination of settings that are requested, stored in the session (as they were set, or as they come back from a file), or neither. z3 decides that requested settings have precedence over stored ones and these over the defaults, that they are stored for later, "
    "that the model is compiled at the prior mean with the calibration of all other parameters, the filter has the covariance of the shocks there and the stored measurement errors, and that setups without likelihood are refused exactly if requested."
)
BOUNDS = dict(prior="means in [0.8,1.2] times the calibration", errors="|R|<=2", settings="two values each, requested, stored or neither")
ASSUMPTIONS = ["scipy's prior densities, the filter itself and process pools are replaced by stand-ins; numerical decompositions inside the compilation return arbitrary values"]
TOL = 1e-7


def h_setup(ctx, name, axis):
    ctx.mode(havoc=True, poly=False)
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.terms(ctx, MM.model(name, None, 1, 0))
    pn = list(spec.prior)
    nd = len(pn)
    no = len(m.observables)
    dt = object if ctx.symbolic else float
    m.data = pd.DataFrame(np.zeros((3, no)), columns=m.observables)
    m.fdict = {}
    # the prior
    mean, prior = {}, {}
    for k in pn:
        old = list(m.prior[k])
        if "uniform" in old:
            a, w = near(ctx, "mean_" + k, spec.par0[k]), ctx.real("width_" + k, .01, .1)
            mean[k] = a + 0.5 * w
            prior[k] = old[:-2] + [a, a + w]
        else:
            mean[k] = near(ctx, "mean_" + k, spec.par0[k])
            prior[k] = old[:-2] + [mean[k], old[-1]]
    m.prior = prior
    init = [ctx.real("init_" + k, .1, 2) for k in pn]
    bounds = [ctx.real("lb_" + k, -3, 0) for k in pn], [ctx.real("ub_" + k, 2, 5) for k in pn]
    lp = ctx.real("lp", -20, 20)
    rec = dict(prior=[], ll=0, pools=[])
    bp = lambda p: np.array(p, dtype=dt) * .5 + 1.0

    def get_prior(p, **k):
        rec["prior"].append(p)
        return ["frozen"] * nd, lambda p: lp, bp, list(init), (list(bounds[0]), list(bounds[1]))

    llv = ctx.choice("likelihood", (1.5, -np.inf)) if axis == "dry" else 1.5

    def get_ll(self, **k):
        rec["ll"] += 1
        ctx.close("the likelihood is tried at the prior mean", list(self.par), [full[k] for k in self.par_names], TOL)
        return llv

    class Pool:
        def __init__(self, n=None, *a, **k):
            self.ncpus = n
            rec["pools"].append(n)

        def close(self):
            pass

        clear = restart = join = close

    full = dict(spec.par0, **mean)
    stored = lambda v: np.asarray(v) if loaded else v
    loaded = ctx.choice("from a file", (False, True))
    kw = dict(verbose=False)
    want = dict(linear=False, N=300, seed=0, transform=False)
    names = dict(linear=("linear", "linear", (True, False)), N=("N", "filter_n", (6, 4)), seed=("seed", "seed", (3, 0)), transform=("use_prior_transform", "use_prior_transform", (True, False)))
    for s, (arg, key, vals) in names.items():
        if s == axis or axis == "all":
            src = ctx.choice(s, ("default", "stored", "requested", "both"))
        else:
            src = "requested" if s in ("N", "linear") else "default"
        if src in ("stored", "both"):
            v = ctx.choice(s + " stored", vals) if s == axis else vals[0]
            m.fdict[key] = stored(v)
            want[s] = v
        if src in ("requested", "both"):
            v = ctx.choice(s + " requested", vals) if s == axis else vals[1]
            kw[arg] = v
            want[s] = v
    R, given = None, None
    load_R = False
    if axis == "R":
        R = np.array(ctx.mat("R", no, no, -2, 2), dtype=dt)
        if ctx.choice("R stored", (True, False)):
            m.fdict["filter_R"] = R.copy()
        else:
            R = None
        if ctx.choice("R given", (False, True)):
            given = np.array(ctx.mat("G", no, no, -2, 2), dtype=dt)
            kw["R"] = given.copy()
        if ctx.choice("load_R", (False, True)):
            kw["load_R"] = load_R = True
    kw["dry_run"] = ctx.choice("dry_run", (True, False)) if axis in ("dry", "limits") else False
    pool = None
    if axis == "pool":
        pool = ctx.choice("pool", ("default", "three", "zero", "debug"))
        kw.update(dict(default={}, three=dict(ncores=3), zero=dict(ncores=0), debug=dict(debug=True))[pool])
        m.debug = False
    else:
        kw["debug"] = True
    lim = None
    if axis == "limits":
        lim = ctx.choice("limits", ((2, 1), (1, 2), (1, 1)))
        kw.update(l_max=lim[0], k_max=lim[1])
    elif axis != "linear":
        kw.update(l_max=1, k_max=0)
    if axis == "changed" or axis == "all":
        # what was set before does not matter
        m.set_par("rho_v", spec.par0["rho_v"] * .9)
    calib = list(m.par_fix)
    pools = [(mod, "ProcessPool", Pool) for mod in (pathos.pools, pathos.multiprocessing) if hasattr(mod, "ProcessPool")]
    err = None
    with MM.swap((emcwrap, "get_prior", get_prior), (pydsge.filtering, "get_ll", get_ll), *pools), contextlib.redirect_stdout(io.StringIO()):
        try:
            m.prep_estim(**kw)
        except (AttributeError, ValueError) as e:
            err = e
    if load_R and R is None:
        ctx.check("missing measurement errors are reported", isinstance(err, AttributeError))
        ctx.cover("refused")
        return
    if kw["dry_run"] and llv == -np.inf:
        ctx.check("setups without likelihood are refused", isinstance(err, ValueError))
        ctx.cover("refused")
        return
    if err is not None:
        raise err
    ctx.check("the likelihood is tried if requested", (rec["ll"] > 0) == bool(kw["dry_run"]))
    f = m.filter
    ctx.check("the kind of filter", f.name == ("KalmanFilter" if want["linear"] else "TEnKF"))
    if not want["linear"]:
        ctx.check("the size of the ensemble", int(f.N) == want["N"])
        ctx.check("in reduced form", bool(f.reduced_form))
    ctx.close("the model is at the prior mean", list(m.par), [full[k] for k in m.par_names], TOL)
    ctx.close("the calibration is unchanged", list(m.par_fix), calib, 0)
    env = spec.params(full)
    sd = [env[spec.cov[s]] for s in spec.shocks]
    ctx.close("the covariance of the filter is that of the shocks", np.asarray(f.Q), [[sd[i] * sd[i] if i == j else 0.0 for j in range(len(sd))] for i in range(len(sd))], 1e-6)
    if R is not None:
        ctx.close("stored measurement errors are used", np.asarray(f.R), R, 0)
        ctx.cover("R")
    elif given is not None:
        ctx.close("given measurement errors are used", np.asarray(f.R), given, 0)
    fd = m.fdict
    ctx.check("the settings are stored", int(fd["filter_n"]) == want["N"] and bool(fd["linear"]) == want["linear"] and int(fd["seed"]) == want["seed"] and bool(fd["use_prior_transform"]) == want["transform"])
    ctx.check("the names are those of the prior", [str(s) for s in fd["prior_names"]] == pn and m.ndim == nd)
    ctx.check("the prior is that of the model", len(rec["prior"]) >= 1 and all(list(p) == pn for p in rec["prior"]))
    for k in pn:
        ctx.close("with its means", rec["prior"][0][k][-2:], prior[k][-2:], 0)
    ctx.close("initial values", list(fd["init_value"]), init, 0)
    ctx.close("lower bounds", list(fd["prior_bounds"][0]), bounds[0], 0)
    ctx.close("upper bounds", list(fd["prior_bounds"][1]), bounds[1], 0)
    ctx.check("the transformation is applied if requested", (m.bptrans is not None) == want["transform"])
    v = np.array([near(ctx, "v_" + k, spec.par0[k]) for k in pn], dtype=dt)
    if m.bptrans is not None:
        ctx.close("and is that of the prior", m.bptrans(v), bp(v), 1e-12)
    ctx.close("the prior density is that of the prior", m.lprior(v), lp, 0)
    hz = list(m.lks)
    if pool is not None:
        ctx.check("workers as requested", (m.pool is None) if pool in ("zero", "debug") else (m.pool is not None and (pool == "default" or m.pool.ncpus == 3)))
        ctx.check("debugging is remembered", m.debug == (pool == "debug"))
    if lim is not None or (axis == "linear" and want["linear"] and "linear" in kw):
        a = lim if not (want["linear"] and "linear" in kw) else (1, 0)
        with MM.concretely():
            m.gen_sys(par=[spec.par0[k] for k in m.par_names], l_max=a[0], k_max=a[1], verbose=False)
        ctx.check("the maximal durations are the requested ones", hz == list(m.lks))
        ctx.cover("limits")
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = []
    for axis, cov in (("linear", ("done", "limits")), ("N", ("done",)), ("seed", ("done",)), ("transform", ("done",)), ("R", ("done", "R", "refused")), ("dry", ("done", "refused")), ("pool", ("done",)), ("limits", ("done", "limits")), ("changed", ("done",)), ("all", ("done",))):
        out.append(dict(name="nkp/" + axis, fn=h_setup, kw=dict(name="nkp", axis=axis), budget=200 if q else 900, must_cover=list(cov)))
    if not q:
        for n in ("nkb",):
            for axis in ("linear", "R", "all"):
                out.append(dict(name="%s/%s" % (n, axis), fn=h_setup, kw=dict(name=n, axis=axis), budget=900, must_cover=["done"]))
    return out
