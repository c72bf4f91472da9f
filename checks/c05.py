"""C05: for every state, shocks and expected duration, the path solves all model equations, with the constrained variable at its bound exactly in the expected periods."""

import numpy as np

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "t_func (engine.t_func, core_boehl_prox, preprocess) is executed with a symbolic history (an arbitrary state vector in a box, taken through symbolic shocks), symbolic current shocks and an enumerated "
    "expected duration (l,k). The anticipated path is continued period by period without further shocks, and the equations of the model file, parsed independently of pydsge, are asserted at every date; "
    "z3 decides each assertion over all values in the box."
)
BOUNDS = dict(states="|x|<=5 per element, all elements free", shocks="|eps|<=5, current and past", durations="l<=2, k<=3 quick; l<=4, k<=8 thorough", dates="l+k+2 dates after the shock", models="the eleven files in checks/models.py (two parameter points each in thorough)", tolerance="1e-6")
ASSUMPTIONS = ["float arithmetic is treated as exact real arithmetic on the floating point coefficients the code computes; differences below 1e-6 are not reported", "system matrices are compiled concretely for each model and parameter point"]
B = 5.0
TOL = 1e-6


def h_path(ctx, name, par=None, lmax=2, kmax=3, pairs=((0, 0),)):
    spec = MM.Spec(name)
    m = MM.model(name, par, lmax, kmax)
    p = dict(spec.par0)
    p.update(par or {})
    env = spec.params(p)
    l, k = ctx.choice("lk", pairs)
    P, st = MM.history(ctx, m, spec, B)
    P.eps[0] = eps = ctx.vec("eps", len(spec.shocks), -B, B)
    H = l + k + 2
    for s in range(H + 3):
        st, (lr, kr), flag = m.t_func(st, eps if s == 0 else None, set_k=MM.lk_seq(l, k, s), return_k=True)
        P.X[s] = st
        ctx.check("durations that were set are reported", (lr, kr) == MM.lk_seq(l, k, s) and flag == 0)
    c = list(m.vv).index(spec.cvar)
    for s in range(H):
        for eq in spec.eqs:
            ctx.close("equation `%s` holds along the path" % eq, spec.resid(eq, env, P.at(s)), 0.0, TOL)
        if l <= s < l + k:
            ctx.close("constrained variable at its bound while binding", P.X[s][c], env["x_bar"], TOL)
        else:
            ctx.close("constraint equation holds when slack", spec.resid(spec.con, env, P.at(s)), 0.0, TOL)
    ctx.cover("path")


def instances(tier):
    out = []
    for name in MM.M:
        if tier == "quick":
            out.append(dict(name=name, fn=h_path, kw=dict(name=name, pairs=[(l, k) for l in range(0, 3) for k in range(0, 4)]), budget=100, must_cover=["path"]))
        else:
            for i, par in enumerate((None, MM.ALT[name])):
                for l in range(5):
                    out.append(dict(name="%s/p%d/l%d" % (name, i, l), fn=h_path, kw=dict(name=name, par=par, lmax=4, kmax=8, pairs=[(l, k) for k in range(0, 9)]), budget=200, must_cover=["path"]))
    return out
