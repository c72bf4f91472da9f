"""C13: setting parameters changes exactly the requested ones, and the model is compiled with them."""

import numpy as np

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "Sequences of parameter operations (single parameters, full vectors, vectors of the estimated parameters, named sets, invalid names) are executed with symbolic values; after each operation every parameter, the compiled bound, the shock covariance and the measurement equation "
    "are compared with a reference that applies the same operations to a dictionary. The compilation runs symbolically as well, with the results of matrix decompositions replaced by arbitrary values (nothing asserted depends on them)."
)
BOUNDS = dict(parameters="[0.8,1.2] times the calibration, all free", sequences="two operations in any combination (quick), three (thorough)", models="three files with priors, one with a bound that is a function of parameters, one with a prior order that differs from the parameter order, one with five parameters")
ASSUMPTIONS = ["numerical decompositions inside the compilation are over-approximated by arbitrary results", "a compilation that fails is not covered (the current parameters are then those that failed)"]
TOL = 1e-9
SETS = ("calib", "prior_mean", "adj_prior_mean", "mode", "init")


def near(ctx, tag, v):
    a, b = sorted((.8 * v, 1.2 * v))
    return ctx.real(tag, a, b, default=v)


def fresh(ctx, name):
    ctx.mode(havoc=True, poly=False)
    spec = MM.Spec(name)
    MM._CACHE.pop(name, None)
    m = MM.model(name, None, 1, 0)
    m.fdict = dict(mode_x=None)
    pn = list(spec.prior)
    pri = {k: list(v) for k, v in spec.prior.items()}
    # what estimation would have stored
    mode = [near(ctx, "mode_" + k, spec.par0[k]) for k in pn]
    m.fdict["mode_x"] = np.array(mode, dtype=object if ctx.symbolic else float)
    m.fdict["init_value"] = [None if str(p[0]) == "None" else p[0] for p in pri.values()]
    m.ndim = len(pn)
    named = {"calib": dict(spec.par0)}
    named["mode"] = dict(spec.par0, **dict(zip(pn, mode)))
    named["init"] = dict(spec.par0, **{k: (spec.par0[k] if str(p[0]) == "None" else p[0]) for k, p in pri.items()})
    named["prior_mean"] = dict(spec.par0, **{k: (.5 * (p[4] + p[5]) if p[3] == "uniform" else p[4]) for k, p in pri.items()})
    named["adj_prior_mean"] = dict(spec.par0, **{k: (.5 * (p[4] + p[5]) if p[3] == "uniform" else p[4] * (10 if p[3] == "inv_gamma_dynare" else 1)) for k, p in pri.items()})
    return spec, m, pn, named


def compiled(ctx, spec, m, cur, full=True):
    env = spec.params(cur)
    names = list(m.par_names)
    ctx.check("parameters are those of the file", names == list(spec.par0))
    ctx.close("all parameters are as requested", m.get_par(), [cur[n] for n in names], TOL)
    ctx.close("estimated parameters are returned in the order of the prior", m.get_par(full=False), [cur[n] for n in spec.prior], TOL)
    for n in names:
        ctx.close("single parameters are as requested", m.get_par(n), cur[n], TOL)
    for n in spec.pf:
        ctx.close("parameter functions follow", m.get_par(n), env[n], 1e-7)
    ctx.close("the bound follows", m.x_bar, env["x_bar"], TOL)
    S = [env[spec.cov[s]] for s in spec.shocks]
    ctx.close("the covariance follows", np.diag(np.asarray(m.get_cov())), S, TOL)
    st = np.array([.3, -.2, .7, .1, .4][: len(m.vv)])
    at = lambda n, d: st[list(m.vv).index(n)]
    ctx.close("the measurement equations follow", np.asarray(m.o_func(st)), [spec.ev(f, env, at) for f in spec.obs.values()], 1e-7)
    ctx.close("the transition uses the current bound", m.sys[2], env["x_bar"], TOL)


OPS = ("one", "other", "full", "prior", "noop", "bad", "pure") + tuple("set:" + s for s in SETS)


def h_seq(ctx, name, n=2, first=None, single=("kappa",), other=("sig_u", "x_bar")):
    spec, m, pn, named = fresh(ctx, name)
    cur = dict(spec.par0)
    for step in range(n):
        op = first if (step == 0 and first) else ctx.choice("op%d" % step, OPS)
        if op in ("one", "other"):
            k = ctx.choice("name%d" % step, single if op == "one" else other)
            v = near(ctx, "v%d" % step, spec.par0[k])
            ret = m.set_par(k, v)
            cur = dict(cur, **{k: v})
        elif op == "full":
            v = {k: near(ctx, "f%d_%s" % (step, k), x) for k, x in spec.par0.items()}
            vec = [v[k] for k in m.par_names]
            ret = m.set_par(vec)
            vec[0] = 77.0
            cur = v
        elif op == "prior":
            v = {k: near(ctx, "p%d_%s" % (step, k), spec.par0[k]) for k in pn}
            ret = m.set_par([v[k] for k in pn])
            cur = dict(cur, **v)
        elif op == "noop":
            ret = m.set_par()
        elif op.startswith("set:"):
            ret = m.set_par(op[4:])
            cur = dict(named[op[4:]])
        elif op == "pure":
            v = near(ctx, "v%d" % step, spec.par0[single[0]])
            base = [cur[k] for k in m.par_names]
            arr = np.array(base, dtype=object if ctx.symbolic else float)
            res = m.set_par(single[0], v, npar=arr)
            ctx.close("altering a given vector changes that entry only", res, [v if k == single[0] else cur[k] for k in m.par_names], TOL)
            sub = np.array([cur[k] for k in pn], dtype=object if ctx.symbolic else float)
            res = m.set_par(pn[1], v, npar=sub)
            ctx.close("altering a given vector of estimated parameters", res, [v if k == pn[1] else cur[k] for k in pn], TOL)
            ret = None
        elif op == "bad":
            for k in ["nonsense"] + list(spec.pf)[:1]:
                try:
                    m.set_par(k, 1.0)
                    ctx.fail("unknown or derived parameters can not be set", k)
                except (SyntaxError, KeyError, ValueError, AttributeError):
                    pass
            ret = None
        if ret is not None:
            ctx.close("the new parameters are returned", ret, [cur[k] for k in m.par_names], TOL)
        compiled(ctx, spec, m, cur)
    ctx.cover("done")


def instances(tier):
    n = 2 if tier == "quick" else 3
    out = []
    for f in OPS:
        out.append(dict(name="nkp/" + f.replace(":", "-"), fn=h_seq, kw=dict(name="nkp", n=n, first=f), budget=120 if tier == "quick" else 900, must_cover=["done"]))
    for f in ("one", "full", "set:prior_mean", "prior"):
        out.append(dict(name="nkb/" + f.replace(":", "-"), fn=h_seq, kw=dict(name="nkb", n=n, first=f, other=("sig_u", "elb", "pi_mean")), budget=120 if tier == "quick" else 900, must_cover=["done"]))
    for f in ("set:calib", "set:mode", "prior", "one"):
        out.append(dict(name="tiny/" + f.replace(":", "-"), fn=h_seq, kw=dict(name="tiny", n=n, first=f, other=("sig_u",)), budget=120 if tier == "quick" else 900, must_cover=["done"]))
    return out
