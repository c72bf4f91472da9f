"""C20: results are loaded from where they were saved."""

import contextlib
import io

import numpy as np

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "save_rdict and load_rdict are executed with symbolic names, suffixes (sequences of symbolic characters) and values on a file system stand-in in which file names are compared symbolically (every comparison forks). "
    "z3 decides, for every pair of names, that results are found again under the name and suffix they were saved with, with their keys and values, that results saved under one name do not replace those under another, and that the dictionary is not modified."
)
BOUNDS = dict(one_file="names of up to 8 (12) characters out of `a . n p z / _` and blank, suffixes of up to 6 (11)", names="pairs of names: 1 or 5 characters (thorough: 1, 2, 4, 5, 6) out of `a . n p z /`, or the default name", suffixes="none, 1 or 4 characters (thorough: up to 5) out of `a . n p z`", history="two saves by up to two models in two directories, then a load")
ASSUMPTIONS = ["numpy's writer and reader are replaced by a stand-in with numpy's naming convention (`.npz` is appended if missing)", "suffixes contain no directory separator"]


class FS:
    def __init__(self):
        self.files = []

    def save(self, path, *a, **kw):
        if not path.endswith(".npz"):
            path = path + ".npz"
        self.files.append((path, {k: np.array(v, dtype=object) for k, v in kw.items()}))

    def load(self, path, *a, **kw):
        for p, d in reversed(self.files):
            if p == path:
                return {k: v.copy() for k, v in d.items()}
        raise FileNotFoundError("nothing saved under this name")


def place(m, path, suffix):
    """the file that results belong to"""
    p = m.name + "_res" if path is None else path
    if p.endswith(".npz"):
        p = p[:-4]
    if not p.startswith("/"):
        p = m.path + "/" + p
    p = p + suffix
    return p if p.endswith(".npz") else p + ".npz"


_MODELS = []


def two():
    while len(_MODELS) < 2:
        MM._CACHE.pop("nkp", None)
        _MODELS.append(MM.model("nkp", None, 1, 0))
        MM._CACHE.pop("nkp", None)
    return _MODELS


def h_rdict(ctx, second="other", default=False, lens=(1, 5), slens=(1, 4)):
    m1, m2 = two()
    m1.name, m1.path = "nkp", "/results"
    m2.name, m2.path = (("nkp", "/results") if second == "same" else ("other", "/results") if second == "named" else ("nkp", "/results/b"))
    fs = FS()
    kw1, kw2 = {}, {}
    arg = []
    for i, kw in ((1, kw1), (2, kw2)):
        path = None
        if not (default and ctx.choice("default%d" % i, (True, False))):
            path = ctx.string("path%d" % i, lens, "a.npz/")
            ctx.assume(path != ".npz")
            kw["path"] = path
        suffix = ""
        if ctx.choice("suffixed%d" % i, (False, True)):
            suffix = ctx.string("suffix%d" % i, slens, "a.npz")
            kw["suffix"] = suffix
        arg.append((path, suffix))
    A, B = ctx.vec("a", 2, -5, 5), ctx.vec("b", 2, -5, 5)
    da, db = dict(x=A, key="one"), dict(x=B, y=A * 2.0)
    with MM.swap((np, "savez_compressed", fs.save), (np, "savez", fs.save), (np, "load", fs.load)), contextlib.redirect_stdout(io.StringIO()):
        m1.save_rdict(da, **kw1)
        m2.save_rdict(db, **kw2)
        r1, r2 = m1.load_rdict(**kw1), m2.load_rdict(**kw2)
    ctx.check("the dictionaries are not modified", list(da) == ["x", "key"] and list(db) == ["x", "y"] and da["x"] is A and db["x"] is B)
    ctx.check("the last results are found", sorted(r2) == ["x", "y"])
    if sorted(r2) == ["x", "y"]:
        ctx.close("with their values", r2["x"], B, 0)
        ctx.close("all of them", r2["y"], A * 2.0, 0)
    if place(m1, *arg[0]) == place(m2, *arg[1]):
        ctx.check("later results under the same name replace earlier ones", sorted(r1) == ["x", "y"])
        ctx.cover("same")
    else:
        ctx.check("results under other names are kept", sorted(r1) == ["key", "x"])
        if "key" in r1:
            ctx.close("with their values", r1["x"], A, 0)
        ctx.cover("other")
    ctx.cover("done")


def h_one(ctx, plen, slen, default=False):
    """one file: longer names and suffixes, more characters"""
    m1, m2 = two()
    m1.name, m1.path = "nkp", "/results"
    fs = FS()
    kw = {}
    path, suffix = None, ""
    if plen:
        path = kw["path"] = ctx.string("path", (plen,), "a.npz/ _")
        ctx.assume(path != ".npz")
    if slen:
        suffix = kw["suffix"] = ctx.string("suffix", (slen,), "a.npz _")
    A = ctx.vec("a", 2, -5, 5)
    ext = bool(ctx.choice("load with extension", (False, True)) if plen else False)
    kl = dict(kw)
    with MM.swap((np, "savez_compressed", fs.save), (np, "savez", fs.save), (np, "load", fs.load)), contextlib.redirect_stdout(io.StringIO()):
        m1.save_rdict(dict(x=A, key="one"), **kw)
        ctx.check("exactly one file is written", len(fs.files) == 1)
        if ext and not path.endswith(".npz"):
            kl["path"] = path + ".npz"
        r = m1.load_rdict(**kl)
    ctx.check("results are found", sorted(r) == ["key", "x"])
    ctx.close("with their values", r["x"], A, 0)
    ctx.check("in the place they belong to", bool(fs.files[0][0] == place(m1, path, suffix)))
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = []
    for pl, sl in [(i, j) for i in range(0, 9 if q else 13) for j in range(0, 7 if q else 12)]:
        out.append(dict(name="one/%d-%d" % (pl, sl), fn=h_one, kw=dict(plen=pl, slen=sl), budget=200 if q else 600, must_cover=["done"]))
    for second in ("same", "named", "dir"):
        for default in (False, True):
            out.append(dict(name="%s/%s" % (second, "default" if default else "named"), fn=h_rdict, kw=dict(second=second, default=default, lens=(1, 5) if q else (1, 2, 4, 5, 6), slens=(1, 4) if q else (0, 1, 3, 4, 5)), budget=200 if q else 900, must_cover=["done", "same", "other"]))
    return out
