"""C03: observables are the measurement equations of the model file, for every state and parameter vector."""

import numpy as np

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "The measurement equations are compiled by the real code with symbolic parameter values (all parameters of the file are free in a box around the calibration) and o_func is executed on symbolic states; the result is compared with the formulas of the model file, "
    "evaluated independently at the same symbolic values. Single states, trajectories, and samples of trajectories with their own parameter vectors are covered; z3 decides equality over all values."
)
BOUNDS = dict(states="|x|<=5", parameters="all parameters of the file in [0.7,1.3] times the calibration (x_bar negative)", shapes="one state, trajectories of 2, batches 2x2, samples of 2 with their own parameters", models="eleven files plus one with non-trivial measurement equations")
ASSUMPTIONS = ["real arithmetic", "coefficients which are functions of symbolic parameters are treated as non-zero when the code classifies variables (a generic parameter vector)"]
B = 5.0
TOL = 1e-7

OBS = MM.mk("obsmix", ["Pi", "y", "r", "u", "w"],
            ["Pi = beta*Pi(+1) + kappa*y", "y = y(+1) - (r - Pi(+1)) + u", "u = rho_u*u(-1) + e_u", "w = rho_w*w(-1) + e_w + y"],
            "r = phi_pi*Pi + phi_y*y",
            {"A": "2*Pi - y/beta + pi_mean*4", "Bo": "(1-rho_u)*r + rr", "C": "w", "D": "y - Pi + r + u - 0.5*w - gam**2 + 1", "E": "gam*u"},
            dict(beta=.99, kappa=.2, phi_pi=1.8, phi_y=.2, rho_u=.6, rho_w=.5, pi_mean=.5, gam=.7, sig_u=.3, sig_w=.3, x_bar=-.2),
            dict(rr="1/beta - 1 + pi_mean*gam"), dict(e_u="sig_u", e_w="sig_w"))
MM.M2["obsmix"] = OBS


def sympar(ctx, m, tag=""):
    out = {}
    for n, v in zip(m.par_names, m.p0()):
        a, b = sorted((.7 * v, 1.3 * v))
        out[n] = ctx.real(tag + n, a, b, default=v) if v else 0.0
    return out


def text(name):
    return MM.M.get(name) or MM.M2[name]


def at_state(spec, vv, st):
    vv = list(vv)
    return lambda n, d: st[vv.index(n)]


def h_obs(ctx, name):
    spec = MM.Spec(name, text(name))
    m = MM.model(name, text=text(name))
    par = sympar(ctx, m)
    env = spec.params(par)
    m.gen_sys(par=[par[n] for n in m.par_names], get_hx_only=True, verbose=False)
    ctx.check("observables are those of the file, in order", list(m.observables) == list(spec.obs))
    nx = len(m.vv)
    for shape in ((), (2,), (2, 2)):
        S = ctx.vec("x%d" % len(shape), int(np.prod(shape, dtype=int)) * nx, -B, B).reshape(shape + (nx,))
        ob = m.o_func(S)
        if not shape:
            ctx.check("observables of a single state carry their names", list(ob.index) == list(spec.obs))
        ob = np.asarray(ob)
        ctx.check("one observation per state", ob.shape == shape + (len(spec.obs),))
        for ix in np.ndindex(*shape):
            for j, (n, f) in enumerate(spec.obs.items()):
                ctx.close("observable %s equals its equation" % n, ob[ix][j], spec.ev(f, env, at_state(spec, m.vv, S[ix])), TOL)
    ctx.cover("done")


def h_pars(ctx, name, full=True):
    """samples of trajectories, each with its own parameters"""
    spec = MM.Spec(name, text(name))
    m = MM.model(name, text=text(name))
    nx = len(m.vv)
    old = list(m.par)
    oldobs = None
    ps = [sympar(ctx, m, "s%d_" % i) for i in range(2)]
    S = ctx.vec("x", 4 * nx, -B, B).reshape(2, 2, nx)
    probe = ctx.vec("probe", nx, -B, B)
    before = np.asarray(m.o_func(probe))
    ob = np.asarray(m.o_func(S, pars=[[p[n] for n in m.par_names] for p in ps]))
    ctx.check("one observation per state", ob.shape == (2, 2, len(spec.obs)))
    for i in range(2):
        env = spec.params(ps[i])
        for t in range(2):
            for j, (n, f) in enumerate(spec.obs.items()):
                ctx.close("observable %s of sample %d uses that sample's parameters" % (n, i), ob[i, t, j], spec.ev(f, env, at_state(spec, m.vv, S[i, t])), TOL)
    ctx.close("the parameters of the model are as before", list(m.par), old, 0)
    ctx.close("later calls use the parameters of the model", np.asarray(m.o_func(probe)), before, TOL)
    ctx.cover("done")


def instances(tier):
    names = list(MM.M) + ["obsmix"]
    out = [dict(name="state/" + n, fn=h_obs, kw=dict(name=n), budget=60, must_cover=["done"]) for n in names]
    out += [dict(name="sample/" + n, fn=h_pars, kw=dict(name=n), budget=60, must_cover=["done"]) for n in names]
    return out
