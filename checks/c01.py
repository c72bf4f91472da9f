"""C01: the compiled linear system is the system of equations in the model file, for every parameter vector."""

import numpy as np

from . import models as MM

LEVEL = "other"
EXPLANATION = (
    "The matrix functions which the parser compiles from the model file are executed on symbolic parameters (including the parameters that are functions of others). Auxiliary variables of long leads/lags and lagged shocks "
    "are eliminated by following their defining rows. Each coefficient of each equation is then compared with the coefficient obtained by evaluating the text of the model file, parsed independently, on unit vectors; "
    "z3 decides the equality for all parameter values in the box."
)
BOUNDS = dict(parameters="each within +-40% of its calibrated value (sign kept), all simultaneously", models="the model files in checks/models.py plus the ones in this module, and all files of a generated family with lags, leads and lagged shocks of up to six periods in the equations and in the constraint (one at a time, and combinations of up to three periods)", tolerance="1e-8 per coefficient")
ASSUMPTIONS = ["exp/log/powers with symbolic exponents are uninterpreted functions", "parameter values at which the code divides by zero are excluded"]
TOL = 1e-8

X = {}
# coefficients that are functions of parameters, nested definitions in reverse order
X["coef"] = MM.mk("coef", ["a", "b", "c", "d"],
                  ["a = p1*p2*a(+1) - (p1 + p2)/p3*b(-1) + q1*c", "(1 + p1)*b - p3^2*b(-1) = p2*d(+1) - q2*e_b", "0.5*c + q3*(a - d(-2)) = p1*e_c(-1) + e_c"],
                  "d = q1*a + (1-q2)*b(-1) + p3*d(-1) - q3*e_d", {"A": "a*q3 + p1", "C": "c - 2*d + q1*p2"},
                  dict(p1=.5, p2=.7, p3=1.3, s1=.1, s2=.2, x_bar=-.5), dict(q1="q2*p1", q2="1/(q3 + p2)", q3="p1 - p3*p2**2"), dict(e_b="s1", e_c="s2", e_d="s1*s2"))
# equations in which everything is on one side, repeated variables, leads and lags of the same variable, no shock
X["forms"] = MM.mk("forms", ["a", "b", "r"],
                   ["a - p1*a(+1) + p2*a(-1) + a(-1) - e_a", "b(+2) - p1*b + b - p2*(a(-1) + b(-3)) = p3*r - r(+1) + a(+1)/p1"],
                   "r = p3*(a - p1*b) + (1-p3)*r(-1) - p2*a(-2) + e_r(-1)*p1", {"A": "a"},
                   dict(p1=.5, p2=.7, p3=.3, s1=.1, x_bar=-.5), {}, dict(e_a="s1", e_r="s1"))
# long leads, lags and lagged shocks, alone and in combination, in equations and in the constraint
X["long"] = MM.mk("long", ["a", "b", "r"], ["a = p1*a(-1) - p2*a(-6) + p3*b(+5) + e_a", "b = p2*b(+1) + p1*r - p3*e_b(-5)"],
                  "r = p3*a + p1*b(-5) - p2*e_r(-4)", {"A": "a"}, dict(p1=.5, p2=.3, p3=.4, s1=.1, x_bar=-.5), {}, dict(e_a="s1", e_b="s1", e_r="s1"))
# names that contain each other
X["names"] = MM.mk("names", ["u", "u1", "u_1", "uu", "r"], ["u = p*u(-2) + pp*u1(+1) + e", "u1 = pp*u_1 - p1*u1(-3) + e1", "u_1 = p1*u_1(-1) + p_1*e1(-2) + p*uu", "uu = p*u(+2) - pp*u_1(-2) + e_1"],
                   "r = p*u(-1) + pp*uu + p_1*u1(-2)", {"u_obs": "u + p1", "uobs": "uu - u_1"}, dict(p=.5, p1=.3, pp=.4, p_1=.2, s=.1, ss=.2, x_bar=-.5), {}, dict(e="s", e1="ss", e_1="s"))
# line breaks, semicolons, list dashes instead of tildes, powers, blanks before parentheses, comments, numbers in several notations
X["syntax"] = X["forms"].replace("forms", "syntax").replace("a - p1*a(+1) + p2*a(-1)", "a - p1 ^2*a(1) @\n        + p2*a( -1 );").replace("    ~ b(+2)", "    - 1e-1*b(+2)").replace("/p1", "/p1 # remark").replace("+ (1-p3)*r(-1)", "@ \n      + (1-p3)*r(-1) / 2.5e0")


def text_of(name):
    if name.startswith("gen:"):
        return gen(*name[4:].split(","))
    return X.get(name) or MM.M[name]


def at(n, d):
    return n if not int(d) else "%s(%+d)" % (n, int(d))


def gen(lag, lead, slag, clag, cslag):
    """a model file with one lag, one lead, one lagged shock in the equations and one lag and one lagged shock in the constraint"""
    eqs = ["a = p1*%s - p2*%s + e_a" % (at("b", "-" + lag), at("a", lead)), "b = p2*a - p3*%s + p1*r" % at("e_b", "-" + slag)]
    return MM.mk("gen", ["a", "b", "r"], eqs, "r = p1*a + p2*%s - p3*%s" % (at("b", "-" + clag), at("e_r", "-" + cslag)), {"A": "a"}, dict(p1=.5, p2=.3, p3=.4, s1=.1, x_bar=-.5), {}, dict(e_a="s1", e_b="s1", e_r="s1"))


def h_gen(ctx, lags, leads, slags, clags, cslags):
    d = [ctx.choice(n, v) for n, v in (("lag", lags), ("lead", leads), ("slag", slags), ("clag", clags), ("cslag", cslags))]
    h_text(ctx, "gen:" + ",".join(map(str, d)))


def sympar(ctx, spec, frac=.4, only=None):
    par = dict(spec.par0)
    for n, v in spec.par0.items():
        if only is None or n in only:
            lo, hi = sorted((v * (1 - frac), v * (1 + frac)))
            if v == 0:
                lo, hi = -1., 1.
            par[n] = ctx.real("par_" + n, lo, hi, default=v)
    return par


def compiled(m, pp):
    """rows of the compiled system as {(name, date): coefficient}, residual form"""
    names = [v.name for v in m.variables]
    out = []
    AA, BB, CC, PSI = (np.asarray(f(pp)) for f in (m.AA, m.BB, m.CC, m.PSI))
    for i in range(AA.shape[0]):
        row = {}
        for mat, d in ((AA, 1), (BB, 0), (CC, -1)):
            for j, n in enumerate(names):
                row[n, d] = mat[i, j]
        for j, n in enumerate(m.shocks):
            row[n, 0] = -PSI[i, j]
        out.append(row)
    bb = np.asarray(m.bb(pp)).reshape(-1)
    bp = np.asarray(m.bb_PSI(pp)).reshape(-1)
    con = {}
    for j, n in enumerate(names):
        con[n, 0] = -bb[j]
        con[n, -1] = -bb[len(names) + j]
    for j, n in enumerate(m.shocks):
        con[n, 0] = -bp[j]
    return out, con


def iszero(v):
    return not hasattr(v, "lin") and not isinstance(v, bool) and abs(v) < 1e-12


def eliminate(ctx, spec, rows, con):
    """auxiliary variables a(t) = w(t+s): follow the defining rows"""
    base = set(spec.vars) | set(spec.shocks)
    known, left = {}, list(rows)
    aux = {n for r in rows for (n, d) in r} - base
    progress = True
    while progress and set(known) != aux:
        progress = False
        for r in list(left):
            nz = {k: v for k, v in r.items() if not iszero(v)}
            defs = [k for k in nz if k[1] == 0 and k[0] in aux and k[0] not in known]
            if len(nz) == 2 and len(defs) == 1 and not any(hasattr(v, "lin") for v in nz.values()):
                a = defs[0]
                w = [k for k in nz if k != a][0]
                if abs(nz[a] + nz[w]) < 1e-12 and (w[0] in base or w[0] in known):
                    k = known.get(w[0], (w[0], 0))
                    known[a[0]] = (k[0], k[1] + w[1])
                    left.remove(r)
                    progress = True
    if set(known) != aux:
        ctx.unsupported("auxiliary variables without a defining row: %s" % sorted(aux - set(known)))

    def sub(r):
        out = {}
        for (n, d), v in r.items():
            b, s = known.get(n, (n, 0))
            if not iszero(v):
                out[b, d + s] = out[b, d + s] + v if (b, d + s) in out else v
        return out

    return [sub(r) for r in left], sub(con)


def coefs(spec, eq, env, keys):
    const = spec.resid(eq, env, lambda n, d: 0.0)
    out = {}
    for key in keys:
        out[key] = spec.resid(eq, env, lambda n, d: 1.0 if (n, d) == key else 0.0) - const
    return out, const


def allkeys(spec):
    return [(n, d) for n in spec.vars + spec.shocks for d in range(-7, 8)]


def h_text(ctx, name):
    spec = MM.Spec(name, text_of(name))
    m = MM.model(name, text=text_of(name), compile=False)
    par = sympar(ctx, spec)
    env = spec.params(par)
    keys = allkeys(spec)
    # which row is which equation: at the calibration (concrete)
    with MM.concretely():
        env0 = spec.params(spec.par0)
        rows0, con0 = eliminate(ctx, spec, *compiled(m, m.pcompile([spec.par0[n] for n in m.par_names])))
    rows, con = eliminate(ctx, spec, *compiled(m, m.pcompile([par[n] for n in m.par_names])))
    ctx.check("one row per equation", len(rows) == len(spec.eqs) == len(rows0))
    if len(rows) != len(spec.eqs) or len(rows0) != len(rows):
        return
    used = set()
    for eq in spec.eqs:
        c0, k0 = coefs(spec, eq, env0, keys)
        piv = max(keys, key=lambda k: abs(c0[k]))
        hit = None
        for i, r in enumerate(rows0):
            if i in used or abs(r.get(piv, 0.0)) < 1e-10:
                continue
            sc = c0[piv] / r[piv]
            if all(abs(c0[k] - sc * r.get(k, 0.0)) < 1e-9 * max(1, abs(sc)) for k in keys):
                hit = i, sc
                break
        if hit is None:
            ctx.fail("equation `%s` is part of the compiled system (at the calibration)" % eq)
            continue
        i, sc = hit
        used.add(i)
        c, _ = coefs(spec, eq, env, keys)
        for k in keys:
            v = rows[i].get(k, 0.0)
            if not (iszero(c[k]) and iszero(v)):
                ctx.close("coefficient of %s(%+d) in `%s`" % (*k, eq), v * sc, c[k], TOL)
        ctx.cover("eq")
    # the constraint, up to scale
    c, _ = coefs(spec, spec.con, env, keys)
    a, b = c[spec.cvar, 0], con.get((spec.cvar, 0), 0.0)
    for k in keys:
        v = con.get(k, 0.0)
        if not (iszero(c[k]) and iszero(v)):
            ctx.close("coefficient of %s(%+d) in the constraint" % k, v * a, c[k] * b, TOL)
    # the covariance structure of the shocks
    Q = np.asarray(m.QQ(m.pcompile([par[n] for n in m.par_names])))
    for i, s in enumerate(spec.shocks):
        for j in range(len(spec.shocks)):
            want = eval(str(spec.cov[s]), {}, env) if i == j else 0.0
            ctx.close("standard deviation of the shocks", Q[i, j], want, TOL)
    ctx.check("shocks keep their order", list(m.shocks) == spec.shocks)
    ctx.check("parameters keep their order", list(m.par_names) == list(spec.par0))
    ctx.cover("done")


def instances(tier):
    q = tier == "quick"
    out = [dict(name=n, fn=h_text, kw=dict(name=n), budget=150 if q else 900, query_ms=20000, must_cover=["eq", "done"]) for n in list(X) + list(MM.M)]
    z = (0,)
    r6 = tuple(range(7))
    fam = dict(lag=(r6, z, z, z, z), lead=(z, r6, z, z, z), slag=(z, z, r6, z, z), clag=(z, z, z, r6, z), cslag=(z, z, z, z, r6), mixed=((1, 3), (0, 2), (1, 3), (0, 2), (0, 1)))
    if not q:
        r4 = tuple(range(5))
        fam.update({"mixed%d%d" % (i, j): (r4, (i,), r4, (j,), (0, 2)) for i in r4 for j in r4})
    for n, v in fam.items():
        out.append(dict(name="gen/" + n, fn=h_gen, kw=dict(zip(("lags", "leads", "slags", "clags", "cslags"), v)), budget=150 if q else 900, query_ms=20000, must_cover=["eq", "done"]))
    return out
