"""C02: parameter functions are resolved in any order and are always up to date."""

import itertools
import os
import contextlib
import io

import numpy as np

from pydsge import DSGE
from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "Model files whose parameter functions depend on each other and on functions of the user's functions file are parsed for every order of the definitions; the compiled functions are executed on two successive symbolic parameter vectors "
    "and every defined parameter is compared with its definition, evaluated independently; z3 decides equality over all parameter values. Circular and undefined definitions have to be rejected."
)
BOUNDS = dict(parameters="[0.7,1.3] times the calibration, all free", definitions="three to four, all orders", sequences="two parameter vectors, then the first again")
ASSUMPTIONS = ["sqrt is the non-negative root; exp, log and the normal distribution functions are not covered"]
TOL = 1e-7
VARS = ["Pi", "y", "r", "u"]
EQ = ["Pi = beta*Pi(+1) + kappa*y", "y = y(+1) - (r - Pi(+1)) + u", "u = rho_u*u(-1) + e_u"]
PAR = dict(beta=.99, theta=.66, phi_pi=1.9, rho_u=.6, sig_u=.3)

FUNCS = """
def ratio(a, b):
    return a/(1+b)

def lin(a):
    return 2*a + 1

def both(a, b, c):
    return a*b - c
"""


def _ratio(a, b):
    return a / (1 + b)


REF = dict(ratio=_ratio, lin=lambda a: 2 * a + 1, both=lambda a, b, c: a * b - c)

SETS = {
    "chain": dict(kappa="(1-theta)*(1-beta*theta)/theta", mid="kappa*2 + theta", x_bar="-(mid**2)/4 - 0.1", phi_y="mid - kappa/3"),
    "funcs": dict(kappa="ratio(theta, beta)", mid="lin(kappa)*phi_pi + ratio(beta, theta)", x_bar="-0.1 - both(mid, mid, 0.2)/20 - 0.01", phi_y="lin(theta) - lin(kappa)"),
    "same": dict(kappa="ratio(theta, beta)/3", phi_y="ratio(theta, rho_u)", x_bar="-ratio(theta, phi_pi)"),
    "sqrt": dict(kappa="sqrt(theta*beta)/5", phi_y="sqrt(phi_pi) - kappa", x_bar="-0.1 - sqrt(1 + theta)"),
}


def text(defs):
    return MM.mk("pf", VARS, EQ, "r = phi_pi*Pi + phi_y*y", {"A": "Pi + kappa", "B": "y*phi_y"}, PAR, defs, dict(e_u="sig_u"))


def parse(txt, funcs=None):
    f = ""
    if funcs:
        f = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "c02_%d_funcs.py" % os.getpid())
        with open(f, "w") as h:
            h.write(funcs)
    with contextlib.redirect_stdout(io.StringIO()):
        m = DSGE.parse(txt, f)
    m.fdict = {}
    m.debug = True
    m.name = "pf"
    m.path = os.environ.get("VERIF_SCRATCH", "/tmp")
    return m


def ref(par, defs, ctx):
    env = dict(par)
    env.update(REF)
    env["sqrt"] = lambda x: x.sqrt() if hasattr(x, "sqrt") else np.sqrt(x)
    left = dict(defs)
    while left:
        for k in list(left):
            try:
                env[k] = eval(left[k], {"__builtins__": {}}, env)
                del left[k]
            except NameError:
                pass
    return {k: env[k] for k in defs}


def h_order(ctx, which):
    defs = SETS[which]
    perms = list(itertools.permutations(defs))
    order = ctx.choice("order", perms)
    m = parse(text({k: defs[k] for k in order}), FUNCS)
    vs = []
    for i in range(2):
        vs.append({n: ctx.real("%s_%d" % (n, i), .7 * v, 1.3 * v, default=v) for n, v in PAR.items()})
    for i in (0, 1, 0):
        par = vs[i]
        want = ref(par, defs, ctx)
        m.gen_sys(par=[par[n] for n in m.par_names], get_hx_only=True, verbose=False)
        for k in defs:
            ctx.close("`%s` takes the value of its definition" % k, m.get_par(k), want[k], TOL)
        ctx.close("the bound is the one defined", m.x_bar, want["x_bar"], TOL)
        ctx.close("plain parameters are unchanged", [m.get_par(n) for n in PAR], list(par.values()), 0)
        st = np.array([0.3, -0.2, 0.1, 0.4])
        ob = np.asarray(m.o_func(st))
        vv = list(m.vv)
        ctx.close("equations use the defined parameters", ob, [st[vv.index("Pi")] + want["kappa"], st[vv.index("y")] * want["phi_y"]], TOL)
        # parameters passed for evaluation only
        other = vs[1 - i]
        w2 = ref(other, defs, ctx)
        for k in defs:
            ctx.close("`%s` of a given parameter vector" % k, m.get_par(k, npar=[other[n] for n in m.par_names]), w2[k], TOL)
    ctx.cover("done")


def h_bad(ctx):
    bad = ctx.choice("definitions", [dict(kappa="mid + theta", mid="kappa*2", phi_y="0.1*theta"), dict(phi_y="theta", kappa="nowhere*theta"), dict(kappa="kappa + 1", phi_y="theta")])
    try:
        m = parse(text(dict(bad, x_bar="-0.2*theta")))
        ctx.fail("circular or undefined definitions are rejected", bad)
    except Exception:
        ctx.cover("rejected")


def instances(tier):
    out = [dict(name=w, fn=h_order, kw=dict(which=w), budget=100, must_cover=["done"]) for w in SETS]
    out.append(dict(name="rejected", fn=h_bad, kw={}, budget=60, must_cover=["rejected"]))
    return out
