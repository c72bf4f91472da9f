"""C26: results do not depend on how samples are distributed over workers."""

import contextlib
import io
import itertools
import random
import types
from copy import deepcopy

import numpy as np
import pandas as pd
import pathos.multiprocessing
import pathos.pools

from . import models as MM
from .c19 import points, put
from .c10 import vec_of

LEVEL = "other"
EXPLANATION = (
    "irfs, simulate and extract are executed with a pool of workers whose schedule is symbolic: each sample is evaluated by an arbitrary worker in an arbitrary order, where each worker is a private copy of the process (model, filter, random number generators) made when the pool was started, and functions and results are copied "
    "on their way. States, shocks and data are symbolic as well. z3 decides that the results are those of the serial evaluation for all values and all schedules, that models which were set up for serial evaluation are evaluated serially, and that the model is not changed."
)
BOUNDS = dict(samples="three", workers="two, any assignment and any order", states="|x|<=4", T="1 to 3 periods", history="a previous use of the same pool under other data and parameters")
ASSUMPTIONS = ["process pools (package pathos) are stand-ins: workers share nothing with each other and the caller, and what is sent to them is copied", "the ensemble filter and its path adjustment are stand-ins whose results are functions of the seed, the data and the current parameters"]
TOL = 1e-9


class Sched:
    """the environment: the process, and the schedule of its workers"""

    def __init__(self, ctx, m):
        self.ctx, self.m, self.live, self.calls, self.used, self.few = ctx, m, {}, 0, 0, False
        env = self

        class Pool:
            def __init__(self, ncpus=None, *a, **k):
                self.ncpus = ncpus or 2
                env.live.setdefault(self.ncpus, dict(workers=None, open=True))

            def _st(self):
                return env.live.setdefault(self.ncpus, dict(workers=None, open=True))

            def __deepcopy__(self, memo):
                return self

            def close(self):
                self._st()["open"] = False

            terminate = close

            def join(self):
                pass

            def clear(self):
                env.live.pop(self.ncpus, None)

            _clear = clear

            def restart(self, force=False):
                if not force and self._st()["open"]:
                    raise AssertionError("Pool is still running")
                self.clear()
                return self

            def _run(self, f, tasks, ordered=True):
                st = self._st()
                if not st["open"]:
                    raise ValueError("Pool not running")
                return env.run(st, f, [tuple(t) for t in zip(*tasks)], ordered)

            def imap(self, f, *args, **k):
                return iter(self._run(f, args))

            def map(self, f, *args, **k):
                return self._run(f, args)

            def uimap(self, f, *args, **k):
                return iter(self._run(f, args, False))

            def amap(self, f, *args, **k):
                r = self._run(f, args)
                return types.SimpleNamespace(get=lambda *a: r, wait=lambda *a: None, ready=lambda: True)

        self.Pool = Pool

    def __enter__(self):
        sw = [(mod, n, self.Pool) for mod in (pathos.pools, pathos.multiprocessing) for n in ("ProcessPool",) if hasattr(mod, n)]
        self.sw = MM.swap(*sw)
        self.sw.__enter__()
        return self

    def __exit__(self, *a):
        self.sw.__exit__(*a)

    def snap(self):
        memo = {id(self.m): self.m}
        return deepcopy(self.m.__dict__, memo), np.random.get_state(), random.getstate()

    def restore(self, s):
        self.m.__dict__.clear()
        self.m.__dict__.update(s[0])
        np.random.set_state(s[1])
        random.setstate(s[2])

    @staticmethod
    def ship(f):
        if not isinstance(f, types.FunctionType):
            return f
        cells = []
        for c in f.__closure__ or ():
            try:
                cells.append(types.CellType(deepcopy(c.cell_contents)))
            except ValueError:
                cells.append(types.CellType())
        g = types.FunctionType(f.__code__, f.__globals__, f.__name__, deepcopy(f.__defaults__), tuple(cells) or None)
        g.__kwdefaults__ = deepcopy(f.__kwdefaults__)
        return g

    def run(self, st, f, tasks, ordered):
        n = len(tasks)
        self.calls += 1
        self.used += n
        tag = "%d_" % self.calls
        # the first sample evaluated is that of the first worker
        order = self.ctx.choice(tag + "order", [tuple(range(n)), tuple(range(n))[::-1]] if self.few else list(itertools.permutations(range(n))))
        who = {t: (i + 1) // 2 % 2 if self.few else self.ctx.choice(tag + "worker%d" % i, (0, 1)) if i else 0 for i, t in enumerate(order)}
        here = self.snap()
        if st["workers"] is None:
            st["workers"] = {}
            st["start"] = here
        out, done = [None] * n, []
        for t in order:
            w = who[t]
            self.restore(deepcopy(st["workers"].get(w, st["start"]), {id(self.m): self.m}))
            try:
                out[t] = deepcopy(self.ship(f)(*deepcopy(tasks[t])))
            finally:
                st["workers"][w] = self.snap()
                self.restore(here)
            done.append(out[t])
        return out if ordered else done


def same(ctx, label, a, b, tol=TOL):
    if isinstance(a, (tuple, list)):
        ctx.check(label + " (number)", isinstance(b, (tuple, list)) and len(a) == len(b))
        for x, y in zip(a, b):
            same(ctx, label, x, y, tol)
    elif isinstance(a, dict):
        ctx.check(label + " (keys)", sorted(a) == sorted(b))
        for k in a:
            same(ctx, label + " " + str(k), a[k], b[k], tol)
    else:
        x, y = np.asarray(a), np.asarray(b)
        ctx.check(label + " (shape)", x.shape == y.shape, (x.shape, y.shape))
        if x.shape == y.shape:
            if x.dtype == object and any(isinstance(e, (np.ndarray, pd.DataFrame)) for e in x.flat):
                for e, f in zip(x.flat, y.flat):
                    same(ctx, label, e, f, tol)
            elif ctx.symbolic:
                for e, f in zip(x.flat, y.flat):
                    # of two values which are no numbers both are no numbers
                    if isinstance(e, float) and e != e or isinstance(f, float) and f != f:
                        ctx.check(label, isinstance(e, float) and e != e and isinstance(f, float) and f != f)
                    else:
                        ctx.close(label, e, f, tol)
            else:
                x, y = x.astype(float), y.astype(float)
                bad = np.isnan(x) | np.isnan(y)
                ctx.check(label, bool((np.isnan(x) == np.isnan(y)).all()))
                ctx.close(label, np.where(bad, 0, x), np.where(bad, 0, y), tol)


def three(m, name, odd):
    """three parameter vectors; an odd one has no solution"""
    P = [vec_of(m, None), vec_of(m, MM.ALT[name]), vec_of(m, odd)]
    return np.array(P)


SETUP = ("pool", "none", "debug")


def parallel(ctx, env, m, setup):
    m.debug = setup == "debug"
    m.pool = env.Pool(2) if setup == "pool" else None


def h_irfs(ctx, name, linear, T, odd, setup=SETUP, zero=False):
    m = MM.model(name, None, 2, 2)
    P = three(m, name, odd)
    x = None if zero else ctx.vec("x", len(m.vv), -4, 4)
    s = ctx.real("size", -4, 4)
    sh = [(m.shocks[0], s, 0), (m.shocks[-1], 1, 1)]
    if hasattr(m, "pool"):
        del m.pool
    m.debug = True
    ref = m.irfs(list(sh), pars=P, state=x, T=T, linear=linear, verbose=0)
    here = list(m.par)
    with Sched(ctx, m) as env:
        how = ctx.choice("setup", setup)
        parallel(ctx, env, m, how)
        res = m.irfs(list(sh), pars=P, state=x, T=T, linear=linear, verbose=0)
        ctx.check("the model is unchanged", list(m.par) == here and m.debug == (how == "debug"))
        same(ctx, "responses are those of the serial evaluation", ref[0], res[0])
        same(ctx, "durations are those of the serial evaluation", ref[1], res[1], 0)
        same(ctx, "flags are those of the serial evaluation", ref[2], res[2], 0)
        if env.used:
            ctx.cover("workers")
    m.debug = True
    del m.pool
    ctx.cover("done")


def h_sim(ctx, name, linear, T, setup=SETUP, zero=False, masked=True, few=False):
    m = MM.model(name, None, 2, 2)
    P = three(m, name, {})
    ne, nx = len(m.shocks), len(m.vv)
    X0 = np.array([np.zeros(nx) if zero else ctx.vec("x%d" % i, nx, -4, 4) for i in range(3)])
    E = np.array([ctx.mat("eps%d" % i, T, ne, -4, 4) for i in range(3)])
    kw = dict(pars=P, resid=E, init=X0, linear=linear)
    if masked:
        mask = np.full((T, ne), np.nan, dtype=object if ctx.symbolic else float)
        mask[0, 0] = ctx.real("mask", -2, 2)
        kw["mask"] = mask
    if hasattr(m, "pool"):
        del m.pool
    m.debug = True
    ref = m.simulate(**kw)
    here = list(m.par)
    with Sched(ctx, m) as env:
        how = ctx.choice("setup", setup)
        parallel(ctx, env, m, how)
        for again in range(2 if linear and how == "pool" else 1):
            env.few = few or (again == 0 and linear)
            res = m.simulate(**kw)
            if again == 0:
                ctx.check("the model is unchanged", list(m.par) == here)
            same(ctx, "series are those of the serial evaluation", ref[0], res[0])
            same(ctx, "durations are those of the serial evaluation", ref[1], res[1], 0)
            same(ctx, "flags are those of the serial evaluation", ref[2], res[2], 0)
            if linear and again == 0 and how == "pool":
                # parameters that are set in between do not matter
                m.set_par(list(P[1]))
        if env.used:
            ctx.cover("workers")
    m.debug = True
    del m.pool
    ctx.cover("done")


def h_extract(ctx, name, T=3, N=2, k=1, setup=SETUP):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, 1, 0)
    ne, nx, no = len(m.shocks), len(m.vv), len(m.observables)
    put(m, np.zeros((T, no)))
    pts = points(name, spec, 3)[: 3 if k == 1 else 1]
    vecs = [[p[x] for x in m.par_names] for p in pts]
    Z = [ctx.mat("z%d" % i, T, no, -4, 4) for i in range(2)]
    r0 = np.array([float(7 * i % 5) for i in range(nx)])

    def bf(self, z, *a, **kw):
        np.random.seed(kw.get("seed"))
        return np.asarray(z)

    def rts(self, z, *a, **kw):
        # depends on seed, data and the current parameters
        w = np.random.rand(N, nx)
        X = np.empty((N, T, nx), dtype=object if ctx.symbolic else float)
        for j in range(N):
            for t in range(T):
                base = self.t_func(w[j] * .1 + r0 * .01 * t, np.zeros(ne), linear=True)[0]
                for i in range(nx):
                    X[j, t, i] = float(base[i]) + w[j, i] * z[t, (i + j) % no] + float(self.Q[0, 0])
        return X

    def npas(self, *a, **kw):
        X, init, fun = np.asarray(kw["X"]), np.asarray(kw["init_states"]), kw["func"]
        y, _ = fun(np.zeros(nx), np.ones(ne))
        e = np.array([[X[-1, t, i % X.shape[-1]] + float(y[0]) + float(kw.get("seed") % 97) for i in range(ne)] for t in range(T - 1)], dtype=X.dtype)
        return init[-1].copy(), np.array([e]), 0

    def prepare(d):
        put(m, Z[d])
        m.set_par(vecs[0])
        m.create_filter(ftype="TEnKF", N=N, reduced_form=False)

    prepare(0)
    cls = type(m.filter)
    old = cls.batch_filter, cls.rts_smoother, cls.npas
    cls.batch_filter, cls.rts_smoother, cls.npas = bf, rts, npas
    kw = dict(sample=vecs if k == 1 else vecs[0], nsamples=k, seed=3, verbose=False, l_max=1, k_max=0)
    try:
        refs = []
        for d in (1, 0):
            prepare(d)
            m.debug = True
            refs.append(m.extract(**kw))
        with Sched(ctx, m) as env:
            how = ctx.choice("setup", setup)
            hist = ctx.choice("history", (False, True)) if how == "pool" else False
            parallel(ctx, env, m, how)
            for d in ((0, 1) if hist else (1,)):
                prepare(d)
                env.few = hist and not d
                res = m.extract(**kw)
            for key in ("init", "resid", "pars", "flags"):
                same(ctx, "%s are those of the serial evaluation" % key, refs[0][key], res[key])
            ctx.check("the debug flag is kept", m.debug == (how == "debug"))
            if env.used:
                ctx.cover("workers")
            if hist:
                ctx.cover("history")
    finally:
        cls.batch_filter, cls.rts_smoother, cls.npas = old
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = []

    def add(inst, fn, cov=("done", "workers"), **kw):
        out.append(dict(name=inst, fn=fn, kw=kw, budget=200 if q else 900, must_cover=list(cov)))

    add("irfs/linear/nk", h_irfs, name="nk", linear=True, T=3, odd=dict(phi_pi=.2, phi_y=0.0))
    add("irfs/linear/hybrid", h_irfs, name="hybrid", linear=True, T=3, odd={})
    add("irfs/endo/nk", h_irfs, name="nk", linear=False, T=2, odd={}, zero=True)
    add("irfs/endo/smooth", h_irfs, name="smooth", linear=False, T=2 if q else 3, odd={}, zero=True)
    add("simulate/linear/nk3", h_sim, name="nk3", linear=True, T=2)
    add("simulate/linear/norm", h_sim, name="norm", linear=True, T=2 if q else 4)
    add("simulate/endo/nk", h_sim, name="nk", linear=False, T=1, zero=True, masked=not q, few=q)
    add("extract/samples", h_extract, name="nkp", cov=("done", "workers", "history"))
    add("extract/draws", h_extract, name="nk3", k=3, cov=("done", "workers", "history"))
    return out
