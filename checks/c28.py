"""C28: a saved session is restored as it was."""

import contextlib
import io
import os
import shutil
import tempfile
from copy import deepcopy

import cloudpickle
import emcee
import emcwrap
import numpy as np
import pandas as pd

import pydsge
import pydsge.filtering
from pydsge import DSGE

from . import models as MM
from .c13 import near

LEVEL = "other"
EXPLANATION = (
    "save and load are executed for models with symbolic data, modes, measurement errors and settings, on a stand-in for numpy's file format (values come back as arrays). All combinations of what a session may contain, of how it is named and loaded, and of what happens in between (changes to the saved model, other models read, several generations of sessions) are explored; "
    "z3 decides that the loaded model has exactly the state of the saved one: texts, names, data, modes, settings, measurement errors, parameters, and the same transition for every state and shock; and that earlier files and models are not affected by later changes."
)
BOUNDS = dict(generations="two, the first file is loaded again at the end", data="3 periods, |z|<=5", modes="[0.8,1.2] times the calibration", states="|x|<=4")
ASSUMPTIONS = ["numpy's writer and reader are replaced by a stand-in with their documented conversions, pickled models and data by private copies", "samplers and chains are stand-ins; parameters other than the calibration are not part of a saved session"]
TOL = 1e-9

FUNCS = "def slo(a, b, c):\n    return a * b + c\n"


class Files:
    """numpy's archives"""

    def __init__(self):
        self.files = {}

    @staticmethod
    def conv(v):
        from symx.npshim import Pickled

        if isinstance(v, Pickled):
            a = np.empty((), dtype=object)
            a[()] = v
            return a
        return deepcopy(np.asanyarray(v))

    def save(self, path, *a, **kw):
        if not path.endswith(".npz"):
            path = path + ".npz"
        self.files[path] = {k: self.conv(v) for k, v in kw.items()}

    def load(self, path, *a, **k):
        if path not in self.files:
            raise FileNotFoundError(path)
        return deepcopy(self.files[path])


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def frame(z, obs):
    return pd.DataFrame(np.asarray(z), index=["q%d" % t for t in range(len(z))], columns=obs)


def make(name, funcs, d, fn):
    text = (MM.M.get(name) or MM.M2[name]) + "\n"
    if funcs:
        assert text.count("slope: kappa*phi_pi + rho_u") == 1
        text = text.replace("slope: kappa*phi_pi + rho_u", "slope: slo(kappa, phi_pi, rho_u)")
        open(os.path.join(d, fn + "_funcs.py"), "w").write(FUNCS)
    open(os.path.join(d, fn + ".yaml"), "w").write(text)
    return os.path.join(d, fn + ".yaml")


KEYS = ("name", "desc", "data", "mode", "R", "tune")


def expect(ctx, m, spec, d, want, tag, ref):
    """the model m is the one of the session described in want"""
    pn = list(spec.prior)
    say = lambda s: "%s: %s" % (tag, s)
    ctx.check(say("name"), m.name == want["name"])
    ctx.check(say("in the directory of its file"), os.path.normpath(m.path) == os.path.normpath(d))
    ctx.check(say("description"), ("Description: %s\n" % want["desc"]) in m.info(verbose=False) and ("Title: %s\n" % want["name"]) in m.info(verbose=False))
    ctx.check(say("texts"), str(m.fdict["yaml_raw"]) == want["yaml"])
    if want["ffile"] is not None:
        ctx.check(say("functions file"), str(m.fdict["ffile_raw"]) == want["ffile"])
    ctx.check(say("names"), list(m.par_names) == list(ref.par_names) and list(m.observables) == list(ref.observables) and list(m.shocks) == list(ref.shocks) and list(m.prior) == pn)
    if want["data"] is None:
        ctx.check(say("no data"), getattr(m, "data", None) is None)
    else:
        ctx.check(say("data labels"), list(m.data.columns) == list(ref.observables) and list(m.data.index) == ["q%d" % t for t in range(len(want["data"]))])
        ctx.close(say("data"), np.asarray(m.data), want["data"], 0)
    if want["mode"] is not None:
        ctx.close(say("mode"), np.asarray(m.fdict["mode_x"]), want["mode"], 0)
    ctx.check(say("mode is known iff it was"), ("mode_x" in m.fdict and m.fdict["mode_x"] is not None) == (want["mode"] is not None))
    if want["R"] is not None:
        ctx.close(say("measurement errors"), np.asarray(m.fdict["filter_R"]), want["R"], 0)
    if want["tune"] is not None:
        ctx.check(say("tuning period"), int(m.get_tune) == want["tune"])


def same_model(ctx, m, ref, spec, tag):
    """same equations at the same parameters"""
    p = [spec.par0[k] for k in ref.par_names]
    p[ref.par_names.index("rho_u")] *= .9
    for x in (m, ref):
        with MM.concretely():
            quiet(x.set_par, list(p), l_max=2, k_max=1)
    ctx.check(tag + ": variables", list(m.vv) == list(ref.vv))
    s, e = ctx.vec("s_" + tag, len(ref.vv), -4, 4), ctx.vec("e_" + tag, len(ref.shocks), -4, 4)
    for lk in ((0, 0), (0, 1), (1, 1)):
        ctx.close(tag + ": the transition is that of the saved model", m.t_func(s, e, set_k=lk)[0], ref.t_func(s, e, set_k=lk)[0], 1e-10)
    ctx.close(tag + ": the measurement is that of the saved model", np.asarray(m.o_func(s)), np.asarray(ref.o_func(s)), 1e-10)
    ctx.close(tag + ": the covariance is that of the saved model", np.asarray(m.QQ(m.ppar), dtype=float), np.asarray(ref.QQ(ref.ppar), dtype=float), 1e-12)


def h_session(ctx, name, funcs=False, force=(False,), between=("nothing",), fname=("default",), contents=("all",), generations=2, earlier=(False,)):
    spec = MM.Spec(name)
    pn = list(spec.prior)
    dt = object if ctx.symbolic else float
    D = tempfile.mkdtemp(prefix="c28_", dir=os.environ.get("VERIF_SCRATCH"))
    fs = Files()
    sw = MM.swap(*([(np, "savez_compressed", fs.save), (np, "savez", fs.save), (np, "load", fs.load)] if ctx.symbolic else []))
    try:
        with sw:
            with MM.concretely():
                f = make(name, funcs, D, "mod")
                m = quiet(DSGE.read, f, nocache=True)
                ref = quiet(DSGE.read, f)
            no = len(m.observables)
            cont = ctx.choice("contents", contents)
            has = lambda k: cont == "all" or cont == k
            if ctx.choice("earlier", earlier):
                # the session has been saved before, with other contents (of the same kind)
                m.path = D
                if has("data"):
                    m.load_data(frame(np.ones((4, no)), m.observables))
                else:
                    m.data = frame(np.zeros((4, no)), m.observables)
                if has("filter"):
                    with MM.concretely():
                        quiet(m.set_par, l_max=1, k_max=0)
                    m.create_filter(ftype="KalmanFilter")
                    m.filter.R = np.array(ctx.mat("R_before", no, no, -2, 2), dtype=dt)
                if has("mode"):
                    m.fdict["mode_x"] = np.array([near(ctx, "mode0_" + k, spec.par0[k]) for k in pn], dtype=dt)
                    m.fdict["mode_f"] = 1.0
                if has("tune"):
                    m.tune = 3
                if has("names"):
                    m.name, m.description = "former", "former text"
                quiet(m.save, os.path.join(D, "ses.npz"))
                if not has("data"):
                    del m.data
            want = dict(name=m.name, desc=m.description, yaml=open(f).read(), ffile=FUNCS if funcs else None, data=None, mode=None, R=None, tune=None)
            if has("names"):
                m.name, m.description = "nam", "some text"
                want.update(name="nam", desc="some text")
            if has("data"):
                want["data"] = np.array(ctx.mat("z", 3, no, -5, 5), dtype=dt)
                m.load_data(frame(want["data"], m.observables))
            if has("mode"):
                want["mode"] = np.array([near(ctx, "mode_" + k, spec.par0[k]) for k in pn], dtype=dt)
                m.fdict["mode_x"] = want["mode"].copy()
                m.fdict["mode_f"] = ctx.real("mode_f", -9, 9)
            if has("tune"):
                m.tune = want["tune"] = 7
            if has("filter"):
                with MM.concretely():
                    quiet(m.set_par, l_max=1, k_max=0)
                if not has("data"):
                    m.data = frame(np.zeros((3, no)), m.observables)
                if ctx.choice("recreate", (True, False) if hasattr(m, "filter") else (True,)):
                    m.create_filter(ftype="KalmanFilter")
                want["R"] = np.array(ctx.mat("R", no, no, -2, 2), dtype=dt)
                m.filter.R = want["R"].copy()
            fn = ctx.choice("file name", fname)
            arg = {"default": (), "bare": (os.path.join(D, "ses"),), "npz": (os.path.join(D, "ses.npz"),)}[fn]
            file = os.path.join(D, want["name"] + "_meta.npz" if fn == "default" else "ses.npz")
            m.path = D
            quiet(m.save, *arg)
            # what happens to the saved model does not matter
            btw = ctx.choice("between", between)
            if btw == "changes":
                if "mode_x" in m.fdict:
                    m.fdict["mode_x"][:] = 9.0
                m.fdict["tune"] = 99
                m.name, m.description = "changed", "changed"
                m.load_data(frame(np.ones((2, no)), m.observables))
                with MM.concretely():
                    quiet(m.set_par, "rho_u", .123)
            elif btw == "read":
                with MM.concretely():
                    o = quiet(DSGE.read, f)
                    o.description = o.name = "another"
                    o.fdict["mode_x"] = np.zeros(len(pn))
                    o.data = None
            fp = ctx.choice("force_parse", force)
            x = quiet(DSGE.load, file, force_parse=fp)
            expect(ctx, x, spec, D, want, "loaded", ref)
            same_model(ctx, x, ref, spec, "loaded")
            ctx.cover("loaded")
            if generations > 1:
                new = dict(want, name="second", desc="other", tune=3)
                x.name, x.description, x.tune = "second", "other", 3
                new["data"] = np.array(ctx.mat("zz", 2, no, -5, 5), dtype=dt)
                x.load_data(frame(new["data"], x.observables))
                new["mode"] = np.array([near(ctx, "mode2_" + k, spec.par0[k]) for k in pn], dtype=dt)
                x.fdict["mode_x"] = new["mode"].copy()
                if has("filter"):
                    with MM.concretely():
                        quiet(x.set_par, l_max=1, k_max=0)
                    x.create_filter(ftype="KalmanFilter")
                    new["R"] = np.array(ctx.mat("R2", no, no, -2, 2), dtype=dt)
                    x.filter.R = new["R"].copy()
                quiet(x.save, os.path.join(D, "gen2"))
                y = quiet(DSGE.load, os.path.join(D, "gen2.npz"), force_parse=fp)
                expect(ctx, y, spec, D, new, "second session", ref)
                same_model(ctx, y, ref, spec, "second session")
                z = quiet(DSGE.load, file)
                expect(ctx, z, spec, D, want, "first session again", ref)
                if want["mode"] is not None:
                    full = dict(spec.par0, **dict(zip(pn, want["mode"])))
                    ctx.close("the mode is that of the session", z.get_par("mode", full=False), want["mode"], 0)
                    ctx.close("with the calibration", z.get_par("mode"), [full[k] for k in z.par_names], 1e-12)
                ctx.cover("generations")
    finally:
        shutil.rmtree(D, ignore_errors=True)
    ctx.cover("done")


def h_resume(ctx, name, linear, transform, explicit=False):
    """an estimation is continued in another session with its settings"""
    ctx.mode(havoc=True, poly=False)
    spec = MM.Spec(name)
    pn = list(spec.prior)
    nd = len(pn)
    dt = object if ctx.symbolic else float
    D = tempfile.mkdtemp(prefix="c28_", dir=os.environ.get("VERIF_SCRATCH"))
    fs = Files()
    bp = lambda p: np.array(p, dtype=dt) * 0.5 + 1.0
    rec = {}
    init = [near(ctx, "init_" + k, spec.par0[k]) for k in pn]

    def get_prior(prior, **k):
        return [None] * nd, lambda p: -1.0, bp, list(init), ([0.0] * nd, [9.0] * nd)

    class Backend:
        def __init__(self, f, *a, **k):
            rec.setdefault("backends", []).append(f)

        def reset(self, *a):
            rec["reset"] = a

        def get_chain(self, flat=None, **k):
            return np.asarray(K)

        def get_log_prob(self, flat=None, **k):
            return np.asarray(LP)

    K = ctx.vec("chain", 3 * 2 * nd, -2, 2).reshape(3, 2, nd)
    LP = ctx.vec("lp", 6, -20, 20).reshape(3, 2)

    class Sampler(Backend):
        def __init__(self):
            pass

    def run_mcmc(lp, nsteps=None, p0=None, **k):
        rec.update(lp=lp, nsteps=nsteps, p0=p0, k=k)
        return Sampler()

    seeds = []
    files = [(np, "savez_compressed", fs.save), (np, "savez", fs.save), (np, "load", fs.load)] if ctx.symbolic else []
    exists = os.path.exists
    try:
        with MM.swap((emcwrap, "get_prior", get_prior), (emcwrap, "run_mcmc", run_mcmc), (emcee.backends, "HDFBackend", Backend), *files):
            with MM.concretely():
                m = quiet(DSGE.read, make(name, False, D, "mod"), nocache=True)
                no = len(m.observables)
                m.load_data(frame(np.zeros((3, no)), m.observables))
            R = np.array(ctx.mat("R", no, no, -2, 2), dtype=dt)
            N, seed = ctx.choice("N", (3, 5)), ctx.choice("seed", (0, 4))
            kw = dict(N=N, linear=linear, seed=seed, use_prior_transform=transform, l_max=2, k_max=1, dry_run=False, verbose=False, debug=True)
            quiet(m.prep_estim, **kw)
            m.filter.R = R.copy()
            bf = os.path.join(D, "stored.h5")
            open(bf, "w").write("x")
            m.debug = True
            p0 = np.array(ctx.vec("p0", 2 * nd, .1, 2), dtype=dt).reshape(2, nd)
            quiet(m.mcmc, p0, nsteps=3, tune=2, backend=bf, verbose=False)
            quiet(m.save, os.path.join(D, "ses"))
            x = quiet(DSGE.load, os.path.join(D, "ses.npz"))
            if explicit:
                quiet(x.prep_estim, N=N + 2, linear=not linear, seed=seed + 1, use_prior_transform=not transform, l_max=2, k_max=1, dry_run=False, verbose=False, debug=True)
                N, linear, seed, transform = N + 2, not linear, seed + 1, not transform
            else:
                quiet(x.prep_estim, l_max=2, k_max=1, dry_run=False, verbose=False, debug=True, load_R=True)
            ctx.check("the kind of filter", x.filter.name == ("KalmanFilter" if linear else "TEnKF"))
            if not linear:
                ctx.check("the size of the ensemble", int(x.filter.N) == N)
            ctx.close("measurement errors", np.asarray(x.filter.R), R, 0)
            ctx.check("the seed", int(x.fdict["seed"]) == seed)
            ctx.check("the transformation", (x.bptrans is not None) == bool(transform))
            # the stored chain is found, transformed once
            C = np.asarray(x.get_chain())
            ctx.close("the stored chain", C, bp(K) if transform else K, 1e-12)
            ctx.check("the tuning period", int(x.get_tune) == 2)
            rec.clear()
            quiet(x.mcmc, nsteps=3, tune=1, resume=True, verbose=False)
            ctx.check("the stored backend is continued", rec["backends"] == [bf] and all(isinstance(b, str) for b in rec["backends"]))
            ctx.check("and is not reset", "reset" not in rec and exists(bf))
            ctx.check("the sampler is told to continue", rec["k"].get("resume") is True and rec["p0"] is None)
            ctx.cover("resumed")
    finally:
        shutil.rmtree(D, ignore_errors=True)
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(inst, fn, cov=("done",), **kw):
        out.append(dict(name=inst, fn=fn, kw=kw, budget=200 if q else 900, must_cover=list(cov)))

    allc = ("all", "none", "names", "data", "mode", "tune", "filter")
    add("contents", h_session, name="nkp", contents=allc, cov=("done", "loaded", "generations"))
    add("earlier", h_session, name="nkp", contents=("all", "names", "mode", "tune", "filter"), earlier=(True,), fname=("npz",), generations=1, cov=("done", "loaded"))
    add("parsed", h_session, name="nkp", contents=("all", "none"), force=(True,), between=("nothing", "read"), cov=("done", "loaded", "generations"))
    add("functions", h_session, name="nkb", funcs=True, contents=("all", "names"), force=(False, True), between=("nothing", "read"), generations=1, cov=("done", "loaded"))
    add("between", h_session, name="nkp", contents=("all", "none"), between=("changes", "read"), fname=("default", "bare", "npz"), generations=1, cov=("done", "loaded"))
    add("between/functions", h_session, name="nkb", funcs=True, contents=("all",), between=("changes", "read"), force=(True,), fname=("default", "npz"), cov=("done", "loaded", "generations"))
    for lin in (True, False):
        for tr in (False, True):
            add("resume/%s/%s" % ("linear" if lin else "ensemble", "transformed" if tr else "plain"), h_resume, name="nkp", linear=lin, transform=tr, cov=("done", "resumed"))
    add("resume/changed", h_resume, name="nkp", linear=True, transform=False, explicit=True, cov=("done", "resumed"))
    return out
