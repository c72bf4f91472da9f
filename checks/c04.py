"""C04: ignoring the constraint, the transition is the bounded linear solution of all model equations."""

import numpy as np

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "t_func(..., linear=True) is executed on a symbolic state and history with symbolic shocks. The equations of the model file (parsed independently), the constraint equation included, are asserted at every date of the path, "
    "and after the shocks the path has to die out (no explosive root is selected): z3 decides both over all states and shocks in the box."
)
BOUNDS = dict(states="|x|<=5, all elements free", shocks="|eps|<=5, current and past", dates="5 dates after the shock, decay asserted after 400 periods", models="eleven files, two parameter points each", tolerance="1e-6 for equations")
ASSUMPTIONS = ["exact real arithmetic on the double precision coefficients the code computes", "system matrices compiled concretely per model and parameter point"]
B = 5.0
TOL = 1e-6


def h_lin(ctx, name, par=None, far=400):
    spec = MM.Spec(name)
    m = MM.model(name, par, 2, 2)
    p = dict(spec.par0)
    p.update(par or {})
    env = spec.params(p)
    P = MM.Path(spec, m.vv)
    n = max(1, MM.maxlag(spec))
    st = ctx.vec("x", len(m.vv), -B, B)
    for t in range(-n, 6):
        P.eps[t] = ctx.vec("eps%d" % (t + n), len(spec.shocks), -B, B) if t <= 0 else np.zeros(len(spec.shocks))
        st, (l, k), flag = m.t_func(st, P.eps[t], linear=True, return_k=True)
        P.X[t] = st
        ctx.check("linear solution has no spell", (l, k) == (0, 0) and flag == 0)
    # expectations at date 0 and later are the path itself (no further shocks)
    for t in range(0, 3):
        for eq in spec.eqs + [spec.con]:
            ctx.close("equation `%s` holds" % eq, spec.resid(eq, env, P.at(t)), 0.0, TOL)
    if far:
        for _ in range(far):
            st = m.t_func(st, None, linear=True)[0]
        ctx.close("the path returns to the steady state", st, np.zeros(len(m.vv)), 1e-3)
    ctx.cover("path")


def instances(tier):
    out = []
    for name in MM.M:
        for i, par in enumerate((None, MM.ALT[name])):
            out.append(dict(name="%s/p%d" % (name, i), fn=h_lin, kw=dict(name=name, par=par, far=400), budget=100, must_cover=["path"]))
    return out
