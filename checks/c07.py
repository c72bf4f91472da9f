"""C07: which expected durations are selected, and when the search reports failure."""

from . import models as MM
from . import c06 as C6

LEVEL = "other"
EXPLANATION = (
    "t_func is executed on symbolic states and shocks; every feasible outcome (l,k,flag) of the search is explored. On each path all candidate durations that come before the returned one are shown to be rejected: "
    "their own anticipated path (computed with set_k and evaluated with the constraint equation of the model text) cannot satisfy the verification conditions; a flag is raised only if no candidate is verified."
)
BOUNDS = C6.BOUNDS
ASSUMPTIONS = C6.ASSUMPTIONS
TOL = C6.TOL


def h_slack(ctx, name, par=None, lmax=2, kmax=3, zero=False):
    """(0,0) iff the linear path never violates the constraint in the search horizon"""
    spec, m, env, P, st, eps = C6.setup(ctx, name, par, lmax, kmax, zero)
    _, (l, k), flag = m.t_func(st, eps, return_k=True)
    xb = env["x_bar"]
    hor = int(m.lks[0]) + 1
    Q = C6.follow(m, spec, P, st, eps, 0, 0, hor)
    sh = [spec.shadow(env, Q.at(s)) for s in range(hor)]
    if k == 0:
        ctx.cover("slack")
        ctx.check("no spell means no error", flag == 0 and l == 0)
        for v in sh:
            ctx.le("no spell expected although the linear path violates the constraint", xb, v, TOL)
    else:
        ctx.cover("binding")
        ctx.check("a spell is expected although the linear path never violates the constraint", ctx.or_(*[v <= xb + TOL for v in sh]))




def verified(ctx, sh, xb, l, k, m):
    """the conditions under which (l,k) is an equilibrium, strictly"""
    c = [sh[l] < xb - m, sh[l + k - 1] < xb - m, sh[l + k] > xb + m]
    if l:
        c += [sh[0] > xb + m, sh[l - 1] > xb + m]
    return c


def h_first(ctx, name, par=None, lmax=2, kmax=3, zero=False):
    spec, m, env, P, st, eps = C6.setup(ctx, name, par, lmax, kmax, zero)
    _, (l, k), flag = m.t_func(st, eps, return_k=True)
    xb = env["x_bar"]
    L, K = (int(v) for v in m.lks)
    ctx.check("durations within the search range", 0 <= l <= L and 0 <= k <= K and flag in (0, 1, 2))
    if flag:
        ctx.cover("flag%d" % flag)
        ctx.check("a failed search is reported with a spell that starts at once", l == 0 and k > 0)
        ctx.check("flag 2 means that the maximal duration is reached", flag != 2 or k == K)
    if not k:
        ctx.cover("slack")
        return
    ctx.cover("spell")
    for a in range(L + 1):
        for b in range(1, K + 1):
            if not flag and (a, b) >= (l, k):
                break
            Q = C6.follow(m, spec, P, st, eps, a, b, a + b + 1)
            sh = [spec.shadow(env, Q.at(s)) for s in range(a + b + 1)]
            ctx.check("no earlier duration is an equilibrium" if not flag else "a failed search means that there is no equilibrium in the search range", ctx.not_(ctx.and_(*verified(ctx, sh, xb, a, b, TOL))))


def h_unavailable(ctx, name, lmax=1):
    """no spells are available (k_max=0, as used for linear estimation)"""
    spec, m, env, P, st, eps = C6.setup(ctx, name, None, lmax, 0, 0)
    x, (l, k), flag = m.t_func(st, eps, return_k=True)
    hor = int(m.lks[0]) + 1
    Q = C6.follow(m, spec, P, st, eps, 0, 0, hor)
    sh = [spec.shadow(env, Q.at(s)) for s in range(hor)]
    ctx.check("only the unconstrained solution is available", l == 0 and k == 0)
    ctx.close("it is the linear solution", x, m.t_func(st, eps, linear=True)[0], TOL)
    if flag:
        ctx.cover("flag")
        ctx.check("an error although the constraint never binds", ctx.or_(*[v <= env["x_bar"] + TOL for v in sh]))
    else:
        ctx.cover("slack")
        for v in sh:
            ctx.le("no error although the linear path violates the constraint", env["x_bar"], v, TOL)


def instances(tier):
    un = [dict(name="none/%s" % n, fn=h_unavailable, kw=dict(name=n, lmax=lm), budget=60, must_cover=["flag", "slack"]) for n, lm in (("nk", 1), ("smooth", 1), ("nk3", 2), ("square", 1))]
    return un + C6.grid(tier, [("zero/", h_slack, ["binding", "slack"]), ("first/", h_first, ["spell", "slack"])])
