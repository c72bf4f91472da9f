"""C22: parameters outside of their bounds are reported, and only those."""

import contextlib
import io
import re

import numpy as np

from . import models as MM
from .c13 import fresh

LEVEL = "other"
EXPLANATION = (
    "box_check is executed with symbolic parameters and symbolic bounds, for vectors of estimated parameters (in the order of the prior), full vectors and the current parameters. Every comparison forks; "
    "z3 decides on every path that a parameter is reported as too low (high) exactly if it is below its lower (above its upper) bound, under its name, and that parameters and bounds are left alone."
)
BOUNDS = dict(parameters="any values in [-3,3]", bounds="any pair lower<=upper in [-3,3]", models="see instances")
ASSUMPTIONS = ["what is reported is read from the text printed"]


def h_box(ctx, name, how, free):
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.terms(ctx, MM.model(name, None, 1, 0))
    pn = list(spec.prior)
    dt = object if ctx.symbolic else float
    nd = len(pn)
    # two parameters with symbolic bounds, the others are far inside
    lb, ub = np.full(nd, -50.0).astype(dt), np.full(nd, 50.0).astype(dt)
    for i in free:
        lb[i], ub[i] = ctx.real("lb%d" % i, -3, 3), ctx.real("ub%d" % i, -3, 3)
        ctx.assume(lb[i] <= ub[i])
    m.fdict = dict(m.fdict, prior_names=pn, prior_bounds=(lb, ub))
    m.prior_arg = [m.par_names.index(p) for p in pn]
    m.prior_names = pn
    p = ctx.vec("p", nd, -3, 3)
    for i in range(nd):
        if i not in free:
            p[i] = float(i) / 7
    full = [spec.par0[k] for k in m.par_names]
    for i, k in enumerate(pn):
        full[m.par_names.index(k)] = p[i]
    for k in m.par_names:
        if k not in pn:
            full[m.par_names.index(k)] = ctx.real("other_" + k, -99, 99)
    full = np.array(full, dtype=dt)
    out = io.StringIO()
    b0, b1, f0 = lb.copy(), ub.copy(), full.copy()
    with contextlib.redirect_stdout(out):
        if how == "sub":
            m.box_check(p)
        elif how == "list":
            m.box_check(list(full))
        elif how == "full":
            m.box_check(full)
        else:
            m.par = list(full)
            m.box_check()
    txt = out.getvalue()
    low = {i for i, k in enumerate(pn) if re.search(r"\b%s\b[^\n]*\b(lower|below)\b" % k, txt)}
    high = {i for i, k in enumerate(pn) if re.search(r"\b%s\b[^\n]*\b(higher|above|larger|greater)\b" % k, txt)}
    for i in range(nd):
        if i in free:
            if i in low:
                ctx.check("reported as too low only if it is", p[i] < lb[i])
                ctx.cover("low")
            else:
                ctx.check("too low and reported", p[i] >= lb[i])
            if i in high:
                ctx.check("reported as too high only if it is", p[i] > ub[i])
                ctx.cover("high")
            else:
                ctx.check("too high and reported", p[i] <= ub[i])
        else:
            ctx.check("parameters inside are not reported", i not in low and i not in high)
    ctx.close("bounds are left alone", np.hstack((lb, ub)), np.hstack((b0, b1)), 0)
    ctx.close("parameters are left alone", full, f0, 0)
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = []
    for n in ("nkp",) if q else ("nkp", "tiny", "dfi"):
        nd = len(MM.Spec(n).prior)
        for how in ("sub", "full", "list", "current"):
            for free in ([(0, 1), (2, 3)] if q else [tuple(range(nd))[i: i + 2] for i in range(0, nd, 2)] + [(0, nd - 1, nd // 2)]):
                out.append(dict(name="%s/%s/%s" % (n, how, "".join(map(str, free))), fn=h_box, kw=dict(name=n, how=how, free=free), budget=100 if q else 600, must_cover=["done", "low", "high"]))
    return out
