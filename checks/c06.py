"""C06: in every state the constrained variable is the maximum of its bound and the constraint equation, and the expected spell is verified by the path it implies."""

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "t_func is executed on a symbolic state and symbolic shocks with endogenous durations; every feasible outcome (l,k,flag) of the search is a path of the exploration. "
    "On each path the anticipated path under the returned durations is computed with the same code and the value of the constraint equation of the model file (parsed independently) is compared with the bound."
)
BOUNDS = dict(states="|x|<=4, shocks |eps|<=4, all elements free", durations="l_max=2, k_max=3 (quick), up to l_max=3, k_max=6 (thorough)", models="see instances", tolerance="1e-6; points within 1e-6 of a switching surface are not distinguished")
ASSUMPTIONS = ["exact real arithmetic on the double precision coefficients computed by the code", "system matrices compiled concretely per model and parameter point; x_bar is symbolic where stated"]
B = 4.0
TOL = 1e-6


def setup(ctx, name, par, lmax, kmax, zero):
    spec = MM.Spec(name)
    m = MM.model(name, par, lmax, kmax)
    p = dict(spec.par0)
    p.update(par or {})
    env = spec.params(p)
    P, st = MM.history(ctx, m, spec, B, zero=zero)
    P.eps[0] = eps = ctx.vec("eps", len(spec.shocks), -B, B)
    return spec, m, env, P, st, eps


def follow(m, spec, P, st, eps, l, k, T):
    """anticipated path and the values of the constraint equation"""
    Q = MM.Path(spec, m.vv)
    Q.X.update(P.X)
    Q.eps.update(P.eps)
    for s in range(T):
        st = m.t_func(st, eps if s == 0 else None, set_k=MM.lk_seq(l, k, s))[0]
        Q.X[s] = st
    return Q


def h_comp(ctx, name, par=None, lmax=2, kmax=3, zero=False):
    spec, m, env, P, st, eps = setup(ctx, name, par, lmax, kmax, zero)
    new, (l, k), flag = m.t_func(st, eps, return_k=True)
    xb = env["x_bar"]
    ctx.cover("k" if k else "slack")
    if flag:
        ctx.cover("flag")
        return
    if l:
        ctx.cover("l")
    c = list(m.vv).index(spec.cvar)
    Q = follow(m, spec, P, st, eps, l, k, l + k + 1)
    ctx.close("endogenous durations give the path under these durations", new, Q.X[0], TOL)
    sh = {s: spec.shadow(env, Q.at(s)) for s in range(l + k + 1)}
    r0 = Q.X[0][c]
    # r = max(shadow, x_bar)
    ctx.le("constrained variable not below its bound", xb, r0, TOL)
    ctx.le("constrained variable not below the constraint equation", sh[0], r0, TOL)
    ctx.check("constrained variable is at its bound or satisfies the constraint equation", ctx.or_(abs(r0 - xb) <= TOL, abs(r0 - sh[0]) <= TOL))
    if k:
        ctx.le("binding at the onset of the spell", sh[l], xb, TOL)
        ctx.le("binding in the last period of the spell", sh[l + k - 1], xb, TOL)
        ctx.le("slack at the end of the spell", xb, sh[l + k], TOL)
        if l:
            ctx.le("slack just before the spell", xb, sh[l - 1], TOL)


QUICK = [("nk", 2, 3, 0), ("smooth", 2, 3, 0), ("leads", 2, 3, 0), ("hybcon", 2, 3, 0), ("conshock", 2, 2, 0), ("norm", 2, 2, 0), ("nk3", 2, 2, 0), ("hybrid", 2, 2, 1), ("ma", 2, 2, 1), ("lags", 2, 2, 1), ("dfi", 2, 2, 2), ("square", 2, 3, 0)]


def grid(tier, fns):
    out = []
    if tier == "quick":
        cells = [(n, None, 0, lm, km, z) for n, lm, km, z in QUICK]
    else:
        cells = [(n, par, i, lm, km, z) for n in MM.M for i, par in enumerate((None, MM.ALT[n])) for lm, km, z in ((2, 3, 0), (3, 5, 1))]
    for n, par, i, lm, km, z in cells:
        for tag, fn, cov in fns:
            out.append(dict(name="%s%s/p%d/l%dk%d%s" % (tag, n, i, lm, km, ["", "/zero", "/shock"][z]), fn=fn, kw=dict(name=n, par=par, lmax=lm, kmax=km, zero=z), budget=150 if tier == "quick" else 1200, must_cover=cov))
    return out


def instances(tier):
    return grid(tier, [("", h_comp, ["k", "slack"])])
