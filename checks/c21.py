"""C21: a model is the one of the current text, whatever was read or processed before."""

import contextlib
import io
import os

import numpy as np

import pydsge
import pydsge.gensys as gs
import pydsge.parser as pp
from pydsge import DSGE

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "DSGE.read is executed for histories of reads of files with symbolic texts (model and functions file; a functions file may be missing), where models returned earlier are modified by the user in between. Every comparison of texts forks. z3 decides that each read returns the parse of exactly the current texts, in the current directory, independent of "
    "all models returned before. gen_sys_from_dict is executed for histories of dictionaries with symbolic entries: z3 decides that each call returns the system of exactly the dictionary and the limits given."
)
BOUNDS = dict(reads="three, of two files in two directories", texts="one or two characters (only equality of texts matters)", dictionaries="three calls; bound, constants of the measurement equations symbolic, other matrices concrete")
ASSUMPTIONS = ["parsing is replaced by a stand-in that keeps the texts it was given (parsing itself is C01 to C03)", "files are stand-ins"]


class Parsed(DSGE):
    """what a parse gives: the texts"""

    def __init__(self, mtxt, ftxt):
        dict.__init__(self)
        self["mod_name"] = "model"
        self.mtxt, self.ftxt = mtxt, ftxt
        self.notes = []


_CTX = []


def h_read(ctx, n=3, files=("a", "a", "b"), nocache=(False,), verbose=False, lens=(1,)):
    fs = {}
    calls = []

    class F:
        def __init__(self, t):
            self.t = t

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def read(self):
            return self.t

        def close(self):
            pass

    def fopen(p, *a, **k):
        if p not in fs:
            raise FileNotFoundError(p)
        return F(fs[p])

    exists = lambda p: p in fs

    def parse(cls, mtxt, func_file, *a, **k):
        calls.append(1)
        return Parsed(mtxt, fs.get(func_file))

    loc = dict(a="/d1/model.yaml", b="/d2/model.yaml", c="/d1/other.yaml")
    old = DSGE.__dict__["parse"]
    DSGE.parse = classmethod(parse)
    Parsed.parse = classmethod(parse)
    had = {}
    for mod in (pp,):
        had[mod] = vars(mod).get("open")
        mod.open = fopen
    real_exists, real_isfile = os.path.exists, os.path.isfile
    sym = ctx.symbolic
    try:
        os.path.exists, os.path.isfile = exists, exists
        vars(pp).pop("cached_models", None)
        got = []
        for i in range(n):
            f = loc[files[i]]
            fun = f[:-5] + "_funcs.py"
            if i == 0 or ctx.choice("write%d" % i, (False, True)) or f not in fs:
                fs[f] = ctx.string("text%d" % i, lens, "abA ")
                if ctx.choice("funcs%d" % i, (False, True)):
                    fs[fun] = ctx.string("ftext%d" % i, lens, "abA ")
                else:
                    fs.pop(fun, None)
            nc = ctx.choice("nocache%d" % i, nocache)
            k0 = len(calls)
            with contextlib.redirect_stdout(io.StringIO()):
                m = DSGE.read(f, nocache=nc, verbose=verbose) if nc else DSGE.read(f, verbose=verbose)
            ctx.check("the model is the one of the text", m.mtxt == fs[f])
            if fun in fs:
                ctx.check("with the functions of the file", m.ftxt is not None and m.ftxt == fs[fun])
            else:
                ctx.check("without functions if there is no such file", m.ftxt is None)
            ctx.check("the text is stored", m.fdict["yaml_raw"] == fs[f])
            ctx.check("the functions are stored", m.fdict["ffile_raw"] == fs[fun] if fun in fs else m.fdict.get("ffile_raw") is None)
            ctx.check("results go to the directory of the file", m.path == os.path.dirname(f))
            ctx.check("nothing is inherited from models returned before", m.notes == [] and "user" not in m.fdict and m.name == "model" and not hasattr(m, "par"))
            ctx.check("a model of its own", all(m is not g and m.fdict is not g.fdict for g in got))
            if nc:
                ctx.check("parsed anew if asked for", len(calls) == k0 + 1)
            ctx.cover("cached" if len(calls) == k0 else "parsed")
            # the user works with the model
            m.notes.append("x")
            m.fdict["user"] = 1
            m.name = "mine"
            m.par = [1.0]
            got.append(m)
        ctx.cover("done")
    finally:
        os.path.exists, os.path.isfile = real_exists, real_isfile
        DSGE.parse = old
        for mod, o in had.items():
            if o is None:
                vars(mod).pop("open", None)
            else:
                mod.open = o
        vars(pp).pop("cached_models", None)


def mdict_of(m):
    p = m.ppar
    fl = lambda x: np.array(x, dtype=float)
    fbc = fl(m.bb(p)).flatten()
    vv = [v.name for v in m.variables]
    nv = len(vv)
    return dict(vars=np.array(vv), shocks=list(m.shocks), const_var=m.const_var, x_bar=float(m.x_bar), AA=fl(m.AA(p)), BB=fl(m.BB(p)), CC=fl(m.CC(p)), DD=-fl(m.PSI(p)),
                fb=-fbc[:nv], fc=-fbc[nv:], fd=-fl(m.bb_PSI(p)).flatten(), observables=list(m.observables), ZZ0=fl(m.ZZ0(p)), ZZ1=fl(m.ZZ1(p)).squeeze(), QQ=fl(m.QQ(p)))


def h_dict(ctx, name, n=3, obs=True, solved=False, fd=True):
    from copy import deepcopy

    spec = MM.Spec(name)
    dt = object if ctx.symbolic else float
    base = []
    for alt in (None, MM.ALT[name]):
        MM._CACHE.pop(name, None)
        m = MM.model(name, alt, 1, 1)
        with MM.concretely():
            d = mdict_of(m)
            if not obs:
                for k in ("ZZ0", "ZZ1", "observables"):
                    d.pop(k)
            if not fd:
                d.pop("fd")
            if solved:
                d["gx"], d["hx"] = m.sys[0].copy(), m.sys[1].copy()
        base.append((d, dict(alt or {})))
    vars(gs).pop("processed_mdicts", None)
    d = None
    for i in range(n):
        # the user changes the dictionary in place, or builds a new one
        how = ctx.choice("how%d" % i, ("new", "same", "bound") + ("obs",) * obs + ("shocks",) * (not solved) if i else ("new",))
        if how == "new":
            w = ctx.choice("which%d" % i, (0, 1)) if i else 0
            d = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in base[w][0].items()}
            if ctx.symbolic and obs:
                for k in ("ZZ1",):
                    d[k] = np.array(d[k], dtype=object)
        elif how == "bound":
            d["x_bar"] = ctx.real("x_bar%d" % i, -1.0, -.05, default=-.2)
        elif how == "obs":
            d["ZZ1"][0] = ctx.real("ZZ1_%d" % i, -1.0, 1.0, default=.1)
        elif how == "shocks":
            d["DD"][:, 0] = d["DD"][:, 0] * ctx.choice("scale%d" % i, (1.3, .7))
        lm, km = ctx.choice("lk%d" % i, ((1, 1), (1, 0)))
        ref = deepcopy(d)
        with contextlib.redirect_stdout(io.StringIO()):
            m = gs.gen_sys_from_dict(d, l_max=lm, k_max=km, parallel=False, verbose=False)
        for k, v in ref.items():
            if k in ("l_max", "k_max"):
                continue
            if isinstance(v, np.ndarray) and v.dtype.kind in "fO":
                ctx.close("the dictionary is not modified", np.asarray(d[k]), v, 0)
        ctx.check("as many matrices as periods considered", np.shape(m.precalc_mat[0])[0] >= 1)
        ctx.close("the bound is that of the dictionary", m.x_bar, ref["x_bar"], 1e-9)
        # the linear solution solves the equations of the dictionary
        nx, ne, nv = len(m.vv), len(m.shocks), len(ref["vars"])
        ctx.check("the shocks are those of the dictionary", list(m.shocks) == list(ref["shocks"]))
        x, e = ctx.vec("x%d" % i, nx, -4, 4), ctx.vec("e%d" % i, ne, -4, 4)
        # in the order of the dictionary (lags of hybrid variables are additional states)
        back = lambda y: np.array([y[list(m.vv).index(v)] for v in ref["vars"]], dtype=dt)

        x0 = np.asarray(m.t_func(x, None, linear=True)[0])
        x1 = np.asarray(m.t_func(x0, e, linear=True)[0])
        x2 = np.asarray(m.t_func(x1, None, linear=True)[0])
        y0, y1, y2 = back(x0), back(x1), back(x2)
        ctx.close("the equations of the dictionary hold", ref["AA"] @ y2 + ref["BB"] @ y1 + ref["CC"] @ y0 + ref["DD"] @ e, np.zeros(len(ref["AA"])), 1e-6)
        c = list(ref["vars"]).index(str(ref["const_var"]))
        ctx.close("and its constraint equation", ref["fb"] @ y1 + ref["fc"] @ y0 + (ref["fd"] @ e if fd else 0.0), 0.0, 1e-6)
        if obs:
            ctx.close("and its measurement equation", np.asarray(m.o_func(x1)), ref["ZZ0"] @ y1 + ref["ZZ1"], 1e-6)
        sh, size = m.shocks[-1], ctx.real("size%d" % i, -2.0, 2.0)
        with contextlib.redirect_stdout(io.StringIO()):
            X = np.asarray(m.irfs([(sh, size, 0)], T=2, linear=True, verbose=False)[0])
        y = np.zeros(ne, dtype=dt)
        y[-1] = size
        z = np.asarray(m.t_func(np.zeros(nx), y, linear=True)[0])
        ctx.close("impulse responses are those of the system", X[0], z, 1e-7)
        ctx.close("in all periods", X[1], np.asarray(m.t_func(z, None, linear=True)[0]), 1e-7)
        b, fl = m.t_func(x0, e, set_k=(0, km))
        ctx.close("the bound binds in the spell", back(np.asarray(b))[c] if km else 0.0, ref["x_bar"] if km else 0.0, 1e-6)
        ctx.cover("done")
    vars(gs).pop("processed_mdicts", None)


def instances(tier):
    q = tier == "quick"
    out = []

    def add(inst, fn, cov=("done",), **kw):
        out.append(dict(name=inst, fn=fn, kw=kw, budget=200 if q else 900, must_cover=list(cov)))

    add("read/aaa", h_read, files="aaa", cov=("done", "cached", "parsed"))
    add("read/aba", h_read, files="aba", cov=("done", "cached", "parsed"))
    add("read/aac", h_read, files="aac", cov=("done", "cached", "parsed"))
    add("read/nocache", h_read, files="aa", n=2, nocache=(False, True), verbose=True, cov=("done", "cached", "parsed"))
    if not q:
        add("read/abac", h_read, files="abac", n=4, nocache=(False, True), cov=("done", "cached", "parsed"))
        add("read/long", h_read, files="aba", lens=(1, 2, 3), cov=("done", "cached", "parsed"))
    for n in ("nkp", "nk3", "hybcon", "norm"):
        add("dict/" + n, h_dict, name=n, n=2 if q else 3)
    add("dict/hybcon/noobs", h_dict, name="hybcon", n=2, obs=False, fd=False)
    add("dict/nk3/noobs", h_dict, name="nk3", n=2, obs=False)
    add("dict/norm/solved", h_dict, name="norm", n=2, solved=True)
    return out
