"""C27: data are selected by label and validated."""

import contextlib
import io
import itertools

import cloudpickle
import numpy as np
import pandas as pd

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "load_data is executed (through pandas) on frames with symbolic values, in which the order of columns, additional columns, the kind of index, the range of dates, missing series and the position of missing values are symbolic choices. "
    "z3 decides that the data of the model, those handed to the filter and those stored for saving are the values of the declared observables in their order in exactly the requested range, that missing series and missing values of the observables within the range are rejected (and no others), and that frames and earlier data are left alone."
)
BOUNDS = dict(frames="4 periods (thorough: 6), two to four observables and one additional series", index="dates, quarters, words, integers", values="|z|<=5, or missing in any one cell", ranges="all, including none and open ends")
ASSUMPTIONS = ["pandas' label index is executed on concrete labels"]


def unpickle(x):
    return x.o if hasattr(x, "o") else cloudpickle.loads(x)


def index_of(kind, T):
    """index, labels to ask for (of every period), as strings or as the labels themselves"""
    if kind == "dates":
        i = pd.date_range("1998-01-01", periods=T, freq="QS")
        return i, [[str(x.date()), x] for x in i]
    if kind == "quarters":
        i = pd.period_range("1998Q1", periods=T, freq="Q")
        return i, [[str(x), x] for x in i]
    if kind == "words":
        i = pd.Index(["q%d" % t for t in range(T)])
        return i, [[x] for x in i]
    i = pd.Index(range(10, 10 + T))
    return i, [[int(x)] for x in i]


def h_data(ctx, name, kind, T=4, bad=True, before=True):
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, 1, 0)
    obs = list(m.observables)
    no = len(obs)
    dt = object if ctx.symbolic else float
    Z = np.array(ctx.mat("z", T, no, -5, 5), dtype=dt)
    W = np.array(ctx.vec("w", T, -5, 5), dtype=dt)
    idx, lab = index_of(kind, T)
    cols = dict(zip(obs, Z.T))
    cols["other"] = W
    miss = ctx.choice("missing", (None, "series", "value", "other") if bad else (None,))
    cell = None
    if miss == "series":
        gone = ctx.choice("series", obs)
        del cols[gone]
    elif miss == "value":
        cell = ctx.choice("cell", [(t, j) for t in range(T) for j in range(no)])
        Z[cell] = np.nan
    elif miss == "other":
        W[ctx.choice("cell", range(T))] = np.nan
    order = sorted(cols)
    order = ctx.choice("order", [order, order[::-1], order[1:] + order[:1]])
    df = pd.DataFrame({c: cols[c] for c in order}, index=idx)
    kw = {}
    a, b = 0, T - 1
    a = ctx.choice("start", [None] + list(range(T)))
    b = ctx.choice("end", [None] + list(range(a or 0, T)))
    how = ctx.choice("labels", range(max(len(x) for x in lab))) if (a is not None or b is not None) and len(lab[0]) > 1 else 0
    if a is not None:
        kw["start"] = lab[a][how]
    if b is not None:
        kw["end"] = lab[b][how]
    a, b = a or 0, T - 1 if b is None else b
    prev = None
    if before:
        prev = np.array(ctx.mat("prev", 2, no, -5, 5), dtype=dt)
        m.load_data(pd.DataFrame(prev, columns=obs))
    keep = df.to_numpy(copy=True)
    err = None
    try:
        d = m.load_data(df, **kw)
    except Exception as e:
        if type(e).__module__.startswith("symx"):
            raise
        err = e
    now = df.to_numpy()
    ctx.check("the frame is left alone", list(df.columns) == order and now.shape == keep.shape and all(x is y or x == y or (x != x and y != y) for x, y in zip(now.flat, keep.flat)) if not ctx.symbolic else list(df.columns) == order and all(x is y for x, y in zip(now.flat, keep.flat)))
    if miss == "series" or (miss == "value" and a <= cell[0] <= b):
        ctx.check("incomplete data are rejected", err is not None)
        if miss == "series":
            ctx.check("missing series are key errors", isinstance(err, KeyError))
        if before:
            ctx.close("the data loaded before are kept", np.asarray(m.data), prev, 0)
        else:
            ctx.check("no data are loaded", not hasattr(m, "data"))
        ctx.cover("rejected")
        return
    ctx.check("complete data are accepted", err is None, repr(err))
    if err is not None:
        return
    want = Z[a:b + 1]
    for label, x in (("the data of the model", m.data), ("the data returned", d), ("the data stored", unpickle(m.fdict["data"]))):
        ctx.check(label + " have the names of the observables", [str(c) for c in x.columns] == obs)
        ctx.check(label + " have the requested dates", list(x.index) == list(idx[a:b + 1]))
        ctx.close(label + " are the values of the frame", np.asarray(x), want, 0)
    ctx.check("the names are stored", [str(o) for o in m.fdict["obs"]] == obs)
    m.create_filter(ftype="KalmanFilter")
    ctx.close("the data of the filter", np.asarray(m.Z), want, 0)
    # the frame may be used otherwise afterwards
    df.iloc[a, list(df.columns).index(obs[0])] = 77.0
    ctx.close("the data of the model are its own", np.asarray(m.data), want, 0)
    ctx.cover("loaded")
    ctx.cover("done")


def h_type(ctx):
    m = MM.model("nkp", None, 1, 0)
    z = ctx.mat("z", 3, len(m.observables), -5, 5)
    for x in (z, list(z), dict(zip(m.observables, z.T)), None, pd.Series(list(z[0]))):
        try:
            m.load_data(x)
            ctx.fail("only data frames are accepted")
        except TypeError:
            ctx.check("only data frames are accepted", True)
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = []
    for name in ("nkp", "nk3") if q else ("nkp", "nk3", "norm", "dfi"):
        for kind in ("dates", "quarters", "words", "numbers"):
            out.append(dict(name="%s/%s" % (name, kind), fn=h_data, kw=dict(name=name, kind=kind, T=3 if q else 5, before=kind != "words"), budget=200 if q else 900, must_cover=["done", "loaded", "rejected"]))
    out.append(dict(name="type", fn=h_type, kw={}, budget=60, must_cover=["done"]))
    return out
