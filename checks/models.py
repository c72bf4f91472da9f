"""Model files used by the checks and an evaluator of their text that is independent of pydsge."""

import os
import re

import numpy as np
import yaml

import pydsge
from pydsge import DSGE

HEAD = """
declarations:
  name: '%(name)s'
  variables: [%(vars)s]
equations:
  model:
%(eqs)s
  constraint:
    ~ %(con)s
  observables:
%(obs)s
calibration:
  parameters:
%(pars)s
%(pf)s
  covariances:
%(cov)s
%(est)s
"""


def mk(name, vars, eqs, con, obs, pars, pf, cov, prior=None):
    est = ""
    if prior:
        est = "estimation:\n  prior:\n" + "\n".join("    %s: %s" % (k, v) for k, v in prior.items())
    return HEAD % dict(
        name=name, vars=", ".join(vars), eqs="\n".join("    ~ " + e for e in eqs), con=con,
        obs="\n".join("    %s: %s" % kv for kv in obs.items()), pars="\n".join("    %s: %s" % kv for kv in pars.items()),
        pf="\n".join(["  parafunc:"] * bool(pf) + ["    %s: %s" % kv for kv in pf.items()]), cov="\n".join("    %s: %s" % kv for kv in cov.items()), est=est)


M = {}

# a minimal New Keynesian model, the constraint refers to a notional rate
M["nk"] = mk("nk", ["Pi", "y", "r", "rn", "u"],
             ["Pi = beta*Pi(+1) + kappa*y", "y = y(+1) - (r - Pi(+1)) - u", "u = rho_u*u(-1) + e_u", "rn = phi_pi*Pi + phi_y*y"],
             "r = rn", {"Infl": "Pi + pi_mean", "Out": "y"},
             dict(beta=.99, theta=.66, phi_pi=2.0, phi_y=.1, rho_u=.7, sig_u=.3, pi_mean=.5, x_bar=-.15),
             dict(kappa="(1-theta)*(1-beta*theta)/theta"), dict(e_u="sig_u"))

# the rule itself is the constraint, three shocks
M["nk3"] = mk("nk3", ["v", "Pi", "r", "y", "u", "z"],
              ["Pi = beta*Pi(+1) + kappa*y + z", "y = y(+1) - 1/sigma*(r - Pi(+1)) + u", "u = rho_u*u(-1) + e_u", "z = rho_z*z(-1) + e_z", "v = rho_v*v(-1) + e_v"],
              "r = phi_pi*Pi + phi_y*y + v", {"Infl": "Pi + pi_mean", "FFR": "r + 1/beta", "Out": "4*y - 2*Pi"},
              dict(beta=.99, kappa=.15, sigma=1.5, phi_pi=1.7, phi_y=.2, rho_u=.6, rho_z=.5, rho_v=.4, sig_u=.3, sig_z=.2, sig_v=.1, pi_mean=.5, elb=.5),
              dict(x_bar="-1/beta + elb"), dict(e_u="sig_u", e_z="sig_z", e_v="sig_v"))

# interest rate smoothing: the constraint refers to the lagged constrained variable
M["smooth"] = mk("smooth", ["Pi", "y", "r", "u"],
                 ["Pi = beta*Pi(+1) + kappa*y", "y = y(+1) - (r - Pi(+1)) + u", "u = rho_u*u(-1) + e_u"],
                 "r = rho*r(-1) + (1-rho)*(phi_pi*Pi + phi_y*y)", {"Infl": "Pi", "FFR": "r + r_mean"},
                 dict(beta=.99, kappa=.2, phi_pi=2.0, phi_y=.3, rho=.5, rho_u=.6, sig_u=.3, r_mean=1.0, x_bar=-.2), {}, dict(e_u="sig_u"))

# policy shock and lags of other variables directly in the constraint
M["conshock"] = mk("conshock", ["y", "Pi", "r", "u", "a"],
                   ["Pi = beta*Pi(+1) + kappa*y + a", "y = y(+1) - (r - Pi(+1)) + u", "u = rho_u*u(-1) + e_u", "a = rho_a*a(-1) + e_a"],
                   "r = phi_pi*Pi + phi_y*y + 0.3*u(-1) - 0.2*a(-1) + 0.4*e_r - 0.1*e_u", {"Infl": "Pi", "FFR": "r"},
                   dict(beta=.99, kappa=.2, phi_pi=1.8, phi_y=.2, rho_u=.5, rho_a=.3, sig_u=.3, sig_a=.3, sig_r=.3, x_bar=-.3), {}, dict(e_u="sig_u", e_r="sig_r", e_a="sig_a"))

# habits and indexation: variables with a lead and a lag
M["hybrid"] = mk("hybrid", ["Pi", "y", "r", "rn", "u"],
                 ["Pi = beta/(1+beta*iota)*Pi(+1) + iota/(1+beta*iota)*Pi(-1) + kappa*y", "y = 1/(1+h)*y(+1) + h/(1+h)*y(-1) - (1-h)/(1+h)*(r - Pi(+1)) + u",
                  "u = rho_u*u(-1) + e_u", "rn = rho*rn(-1) + (1-rho)*(phi_pi*Pi + phi_y*y) + e_r"],
                 "r = rn", {"Infl": "Pi + 0.2", "Out": "y", "FFR": "r - 0.5*y"},
                 dict(beta=.99, iota=.3, h=.5, kappa=.1, phi_pi=1.9, phi_y=.2, rho=.6, rho_u=.5, sig_u=.3, sig_r=.2, x_bar=-.25), {}, dict(e_u="sig_u", e_r="sig_r"))

# a forward looking variable that is lagged only in the constraint; a hybrid variable lagged in the constraint
M["hybcon"] = mk("hybcon", ["Pi", "y", "r", "u"],
                 ["Pi = beta*Pi(+1) + kappa*y", "y = 0.7*y(+1) + 0.3*y(-1) - (r - Pi(+1)) + u", "u = rho_u*u(-1) + e_u"],
                 "r = phi_pi*Pi + 0.2*Pi(-1) + 0.1*y(-1) + 0.3*r(-1)", {"Infl": "Pi", "Out": "y"},
                 dict(beta=.99, kappa=.2, phi_pi=1.8, rho_u=.6, sig_u=.3, x_bar=-.2), {}, dict(e_u="sig_u"))

# long lags
M["lags"] = mk("lags", ["Pi", "y", "r", "u", "dy"],
               ["Pi = beta*Pi(+1) + kappa*y + 0.1*u(-3)", "y = y(+1) - (r - Pi(+1)) + u", "u = rho1*u(-1) + rho2*u(-2) + e_u", "dy = y - y(-2)"],
               "r = phi_pi*Pi + phi_y*y", {"Infl": "Pi", "Growth": "dy + 0.4"},
               dict(beta=.99, kappa=.2, phi_pi=1.8, phi_y=.2, rho1=.4, rho2=.2, sig_u=.3, x_bar=-.2), {}, dict(e_u="sig_u"))

# long leads (term structure)
M["leads"] = mk("leads", ["Pi", "y", "r", "rl", "u", "fw"],
                ["Pi = beta*Pi(+1) + kappa*y", "y = y(+1) - 0.5*(r - Pi(+1)) - 0.3*rl + u", "rl = (r + r(+1) + r(+2))/3", "u = rho_u*u(-1) + e_u", "fw = 0.5*u(+3) + 0.2*Pi(+2)"],
                "r = phi_pi*Pi + phi_y*y", {"Infl": "Pi", "Long": "rl - Pi"},
                dict(beta=.99, kappa=.2, phi_pi=1.8, phi_y=.2, rho_u=.6, sig_u=.3, x_bar=-.2), {}, dict(e_u="sig_u"))

# moving average shocks
M["ma"] = mk("ma", ["Pi", "y", "r", "u", "g"],
             ["Pi = beta*Pi(+1) + kappa*y + g", "y = y(+1) - (r - Pi(+1)) + u", "u = rho_u*u(-1) + e_u + 0.4*e_u(-1) - 0.2*e_u(-2)", "g = 0.3*g(-1) + e_g - mu*e_g(-1)"],
             "r = phi_pi*Pi + phi_y*y", {"Infl": "Pi", "Out": "y"},
             dict(beta=.99, kappa=.2, phi_pi=1.8, phi_y=.2, rho_u=.5, mu=.3, sig_u=.3, sig_g=.2, x_bar=-.2), {}, dict(e_u="sig_u", e_g="sig_g"))

# the coefficient of the constrained variable in its constraint is not one; capital-like endogenous state
M["norm"] = mk("norm", ["kk", "Pi", "y", "r", "u", "q"],
               ["Pi = beta*Pi(+1) + kappa*y - 0.05*kk(-1)", "y = 0.9*y(+1) - 0.6*(r - Pi(+1)) + u + 0.1*q", "kk = 0.9*kk(-1) + 0.1*q", "q = 0.9*q(+1) + 0.2*y(+1) - 0.5*(r - Pi(+1)) - 0.02*kk", "u = rho_u*u(-1) + e_u"],
               "r = 0.5*r + 0.3*r(-1) + 0.5*(phi_pi*Pi + phi_y*y) + 0.25*e_m", {"Infl": "Pi", "Cap": "kk + 1"},
               dict(beta=.99, kappa=.2, phi_pi=1.8, phi_y=.2, rho_u=.5, sig_u=.3, sig_m=.2, x_bar=-.2), {}, dict(e_u="sig_u", e_m="sig_m"))

# the documentation's example model
M["dfi"] = mk("dfi", "Pi c y x s dy r rn u z vr".split(),
              ["Pi = beta*Pi(+1) - kappa*x - z", "c = c(+1) - 1/sigma*(r - Pi(+1) + u)", "y = c", "x = nu*s - eta*y - (r - Pi(+1) + u)",
               "s = (1-beta)*y(+1) + beta*s(+1) - (r - Pi(+1) + u)", "z = rho_z * z(-1) + e_z", "u = rho_u * u(-1) + e_u", "vr = rho_r*vr(-1) + e_r",
               "rn = rho*rn(-1) + (1-rho)*(phi_pi*Pi + phi_y*y) + vr", "dy = y - y(-1)"],
              "r = rn", {"GDP": "dy + y_mean", "Infl": "Pi + pi_mean", "FFR": "r + 1/beta"},
              dict(beta=.99, theta=.66, sigma=1.5, phi_pi=1.7, phi_y=.125, rho=.8, rho_u=.8, rho_z=.9, rho_r=.7, sig_u=.5, sig_z=.3, sig_r=.3, psi=0.3, nub=0.1, y_mean=0.35, pi_mean=0.5, elb_level=.07),
              dict(kappa="(1-theta)*(1-beta*theta)/theta", eta="(sigma + psi + nub)/(1-nub)", nu="nub/(1-nub)", x_bar="-1/beta + elb_level"),
              dict(e_z="sig_z", e_u="sig_u", e_r="sig_r"),
              prior=dict(theta="[0.7813, 0.2, 0.95, beta, 0.5, 0.10]", sigma="[1.2312, 0.25, 3, normal,1.50, 0.375]", phi_pi="[1.7985, 1.0, 3, normal,1.5, 0.25]",
                         phi_y="[0.0893, 0.001, 0.5, normal, 0.125, 0.05]", rho_u="[.7, .01, .9999, beta, 0.5, 0.20]", rho_r="[None, .01, .9999, beta, 0.5, 0.20]",
                         rho_z="[.7, .01, .9999, beta, 0.5, 0.20]", rho="[0.8, 0.5, 0.975, uniform, 0.55, 0.95]", sig_u="[0.5, 0.025, 5, inv_gamma_dynare, 0.1, 2]",
                         sig_r="[0.5, 0.01, 3, inv_gamma_dynare, 0.1, 2]", sig_z="[0.5, 0.01,3 , inv_gamma_dynare, 0.1, 2]"))

# no predetermined variables, as many shocks as variables
M["square"] = mk("square", ["Pi", "y", "r"], ["Pi = .99*Pi(+1) + kappa*y + e_z", "y = y(+1) - (r - Pi(+1)) + e_u"], "r = phi_pi*Pi + e_r",
                 {"A": "Pi + 0.2", "B": "y", "C": "r"}, dict(kappa=.15, phi_pi=1.7, sz=.3, su=.3, sr=.2, x_bar=-.3), {}, dict(e_z="sz", e_u="su", e_r="sr"))

# models used by single checks
M2 = {}
# the order of the prior differs from that of the parameters
M2["nkp"] = mk("nkp", ["v", "Pi", "r", "y", "u"],
               ["Pi = beta*Pi(+1) + kappa*y", "y = y(+1) - (r - Pi(+1)) + u", "u = rho_u*u(-1) + e_u", "v = rho_v*v(-1) + e_v"],
               "r = phi_pi*Pi + phi_y*y + v", {"Infl": "Pi + pi_mean", "FFR": "r + slope*y"},
               dict(beta=.99, kappa=.15, phi_pi=1.7, phi_y=.2, rho_u=.6, rho_v=.4, sig_u=.3, sig_v=.1, pi_mean=.5, x_bar=-.3),
               dict(slope="kappa*phi_pi + rho_u", var_u="sig_u**2"), dict(e_u="sig_u", e_v="sig_v"),
               prior=dict(sig_v="[0.12, 0.01, 3, inv_gamma_dynare, 0.2, 2]", kappa="[0.16, 0.01, 0.6, normal, 0.2, 0.05]", rho_u="[None, 0.05, 0.98, beta, 0.5, 0.2]", phi_pi="[1.6, 1.1, 3, uniform, 1.2, 2.4]"))
# the bound and a standard deviation are functions of parameters
M2["nkb"] = M2["nkp"].replace("nkp", "nkb").replace("    x_bar: -0.3\n", "    elb: 0.2\n").replace("  parafunc:\n", "  parafunc:\n    x_bar: elb*pi_mean - 0.4\n    s_v: 2*sig_v*kappa\n").replace("e_v: sig_v", "e_v: s_v")
# as many parameters as there are letters in `calib`
M2["tiny"] = mk("tiny", ["Pi", "y", "r", "u"], ["Pi = .99*Pi(+1) + kappa*y", "y = y(+1) - (r - Pi(+1)) + u", "u = rho_u*u(-1) + e_u"],
                "r = phi_pi*Pi", {"Infl": "Pi"}, dict(kappa=.15, phi_pi=1.7, rho_u=.6, sig_u=.3, x_bar=-.3), {}, dict(e_u="sig_u"),
                prior=dict(rho_u="[0.5, 0.05, 0.98, beta, 0.5, 0.2]", kappa="[0.16, 0.01, 0.6, normal, 0.2, 0.05]", phi_pi="[1.6, 1.1, 3, normal, 1.5, 0.2]", sig_u="[0.1, 0.01, 3, inv_gamma_dynare, 0.2, 2]"))

# second parameter points
ALT = {
    "nk": dict(rho_u=.9, theta=.8, phi_pi=1.5), "nk3": dict(sigma=.8, phi_pi=2.5, rho_v=.8, kappa=.05), "smooth": dict(rho=.8, rho_u=.8, kappa=.1),
    "conshock": dict(rho_u=.8, phi_pi=1.4), "hybrid": dict(h=.8, iota=.6, rho=.3), "hybcon": dict(rho_u=.8, kappa=.1), "lags": dict(rho1=.7, rho2=-.3),
    "leads": dict(rho_u=.8, kappa=.1), "ma": dict(rho_u=.8, mu=-.5), "norm": dict(rho_u=.8, phi_pi=2.5), "dfi": dict(rho=.5, rho_u=.7, theta=.8), "square": dict(kappa=.05, phi_pi=2.5), "nkp": dict(kappa=.05, phi_pi=2.5),
}


class Spec:
    """the model text, evaluated without pydsge"""

    def __init__(self, name, text=None):
        self.name = name
        self.text = text or M.get(name) or M2[name]
        t = re.sub(r"@ ?\n", " ", self.text.replace("^", "**").replace(";", "")).replace("~ ", "- ")
        y = yaml.safe_load(t)
        self.vars = list(y["declarations"]["variables"])
        self.eqs = list(y["equations"]["model"])
        self.con = y["equations"]["constraint"][0]
        self.cvar = self.con.split("=")[0].strip()
        self.obs = dict(y["equations"].get("observables") or {})
        self.par0 = dict(y["calibration"]["parameters"])
        self.pf = dict(y["calibration"].get("parafunc") or {})
        self.cov = dict(y["calibration"]["covariances"])
        self.shocks = list(self.cov)
        self.prior = (y.get("estimation") or {}).get("prior")

    def params(self, par, funcs=None):
        env = dict(par)
        env.update(funcs or {})
        env.setdefault("sqrt", lambda x: x ** 0.5)
        left = dict(self.pf)
        for _ in range(len(left) + 1):
            for k in list(left):
                try:
                    env[k] = eval(str(left[k]), {}, env)
                    del left[k]
                except NameError:
                    pass
        assert not left
        return env

    def _code(self, expr):
        names = self.vars + self.shocks

        def rep(m):
            if m.group(1) in names:
                return "_at('%s',%s)" % (m.group(1), int((m.group(2) or "(0)").strip()[1:-1].replace(" ", "")))
            return m.group(0)

        return re.sub(r"\b([A-Za-z_]\w*)\b(\s*\(\s*[+-]?\s*\d+\s*\))?", rep, str(expr))

    def ev(self, expr, env, at):
        return eval(self._code(expr), {"_at": at}, env)

    def resid(self, eq, env, at):
        l, r = eq.split("=") if "=" in eq else (eq, "0")
        return self.ev(l, env, at) - self.ev(r, env, at)

    def shadow(self, env, at):
        """the value the constrained variable would take if the constraint equation held at this date"""
        # the equation may contain the constrained variable on its right hand side: solve a*r + b = 0
        def sub(v):
            return lambda n, d: v if (n == self.cvar and d == 0) else at(n, d)

        b = self.resid(self.con, env, sub(0.0))
        a = self.resid(self.con, env, sub(1.0)) - b
        return b * (-1 / a)


_CACHE = {}


class concretely:
    """run the code under test on plain numbers inside an exploration"""

    def __enter__(self):
        import sys

        self.core = sys.modules.get("symx.core")
        if self.core:
            self.eng, self.core.ENG = self.core.ENG, None

    def __exit__(self, *a):
        if self.core:
            self.core.ENG = self.eng


def model(name, par=None, l_max=None, k_max=None, text=None, compile=True):
    """a freshly parsed (cached text) and compiled model; compiled concretely"""
    from copy import deepcopy

    if name not in _CACHE:
        import contextlib, io

        with contextlib.redirect_stdout(io.StringIO()), concretely():
            m = DSGE.parse(text or M.get(name) or M2[name], "")
            m.fdict = {}
            m.debug = True
            m.name = name
            m.path = os.environ.get("VERIF_SCRATCH", "/tmp")
        _CACHE[name] = m
    m = _CACHE[name]
    if compile:
        p = dict(zip(m.par_names, m.p0()))
        p.update(par or {})
        kw = {}
        if l_max is not None:
            kw["l_max"] = l_max
        if k_max is not None:
            kw["k_max"] = k_max
        for a in ("lks", "precalc_tmat", "filter", "data"):
            if hasattr(m, a):
                delattr(m, a)
        with concretely():
            m.gen_sys(par=[p[n] for n in m.par_names], verbose=False, **kw)
    return m


def lk_seq(l, k, s):
    """durations that remain s periods after (l,k) was expected"""
    return (l - s, k) if s <= l else (0, max(k - (s - l), 0))


def maxlag(spec, eqs=None):
    """longest lag in the text (in periods; a lag of a shock counts like a lag of a variable)"""
    d = 0
    for eq in list(spec.eqs) + [spec.con] if eqs is None else eqs:
        for mt in re.finditer(r"\b([A-Za-z_]\w*)\b\s*\(\s*(-\s*\d+)\s*\)", eq):
            if mt.group(1) in spec.vars + spec.shocks:
                d = max(d, -int(mt.group(2).replace(" ", "")))
    return d


class Path:
    """values of all variables and shocks by date"""

    def __init__(self, spec, vv):
        self.spec, self.vv = spec, list(vv)
        self.X, self.eps = {}, {}

    def at(self, t):
        def f(name, d):
            s = t + d
            if name in self.spec.shocks:
                e = self.eps.get(s)
                return 0.0 if e is None else e[self.spec.shocks.index(name)]
            return self.X[s][self.vv.index(name)]

        return f


def history(ctx, m, spec, B=5.0, extra=0, tag="", zero=False):
    """a state with its history: an arbitrary vector, taken through as many unconstrained periods (with arbitrary shocks) as the longest lag"""
    P = Path(spec, m.vv)
    n = max(1, maxlag(spec)) + extra
    # zero: the history starts in the steady state (1), and stays there (2)
    st = np.zeros(len(m.vv)) if zero else ctx.vec(tag + "x", len(m.vv), -B, B)
    for t in range(-n, 0):
        P.eps[t] = np.zeros(len(spec.shocks)) if zero == 2 else ctx.vec("%spast%d" % (tag, t + n), len(spec.shocks), -B, B)
        st = m.t_func(st, P.eps[t], set_k=(0, 0))[0]
        P.X[t] = st
    return P, st


def terms(ctx, m):
    """let the stored calibration hold terms (copies of it are written to)"""
    if ctx.symbolic and isinstance(m.par_fix, np.ndarray) and m.par_fix.dtype != object:
        from symx.npshim import obj

        m.par_fix = obj(m.par_fix)
    return m


class swap:
    """stand-ins for functions of other packages: swap((module, name, stand-in), ...) replaces the attribute and every reference the pydsge modules hold"""

    def __init__(self, *what):
        self.what, self.undo = what, []

    def __enter__(self):
        import sys

        for mod, name, new in self.what:
            old = getattr(mod, name)
            setattr(mod, name, new)
            self.undo.append((mod, name, old))
            for n, p in list(sys.modules.items()):
                if p is not None and p is not mod and (n == "pydsge" or n.startswith("pydsge.")):
                    for k, v in list(vars(p).items()):
                        if v is old:
                            setattr(p, k, new)
                            self.undo.append((p, k, old))
                        elif isinstance(v, type) and v.__module__.startswith("pydsge"):
                            for kk, vv in list(vars(v).items()):
                                if vv is old:
                                    setattr(v, kk, new)
                                    self.undo.append((v, kk, old))

    def __exit__(self, *a):
        for mod, name, old in reversed(self.undo):
            setattr(mod, name, old)
        self.undo = []
