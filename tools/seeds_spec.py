# planted bugs: written from the text of a property and the code, see DESIGN.md
PRE = '''import os, sys, warnings, contextlib, io
import numpy as np
T = sys.argv[1]
warnings.simplefilter("ignore")
from pydsge import *

def build(text, name="m"):
    f = os.path.join(T, name + ".yaml")
    open(f, "w").write(text)
    with contextlib.redirect_stdout(io.StringIO()):
        return DSGE.read(f)

NK = """
declarations:
  name: 'nk'
  variables: [Pi, y, r, rn, u]
equations:
  model:
    ~ Pi = beta*Pi(+1) + kappa*y
    ~ y = y(+1) - (r - Pi(+1)) - u
    ~ u = rho_u*u(-1) + e_u
    ~ rn = phi_pi*Pi + phi_y*y
  constraint:
    ~ r = rn
  observables:
    Infl: Pi + pi_mean
    Out: y
calibration:
  parameters:
    beta: 0.99
    theta: 0.66
    phi_pi: 2.0
    phi_y: 0.1
    rho_u: 0.7
    sig_u: 0.3
    pi_mean: 0.5
    x_bar: -0.15
  parafunc:
    kappa: (1-theta)*(1-beta*theta)/theta
  covariances:
    e_u: sig_u
"""

NK2 = """
declarations:
  name: 'nk2'
  variables: [v, Pi, r, y, u]
equations:
  model:
    ~ Pi = beta*Pi(+1) + kappa*y
    ~ y = y(+1) - (r - Pi(+1)) + u
    ~ u = rho_u*u(-1) + e_u
    ~ v = rho_v*v(-1) + e_v
  constraint:
    ~ r = phi_pi*Pi + phi_y*y + v
  observables:
    Infl: Pi + pi_mean
    FFR: r + 1
calibration:
  parameters:
    beta: 0.99
    kappa: 0.15
    phi_pi: 1.7
    phi_y: 0.2
    rho_u: 0.6
    rho_v: 0.4
    sig_u: 0.3
    sig_v: 0.1
    pi_mean: 0.5
    x_bar: -0.15
  covariances:
    e_u: sig_u
    e_v: sig_v
estimation:
  prior:
    kappa: [0.15, 0.01, 0.6, normal, 0.2, 0.05]
    rho_u: [0.6, 0.05, 0.98, beta, 0.5, 0.2]
    sig_u: [0.3, 0.01, 3, inv_gamma_dynare, 0.3, 2]
    sig_v: [0.1, 0.01, 3, inv_gamma_dynare, 0.3, 2]
"""
'''
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("s05a", "C05", [("pydsge/engine.py", "    xi = inv @ (c - aca(A[:dimq, dimq:]) @ psi)", "    xi = inv @ (c - (0 if l > 1 else 1) * (aca(A[:dimq, dimq:]) @ psi))")],
     '''
m = build(NK.replace("~ rn = phi_pi*Pi + phi_y*y", "~ rn = 0.6*rn(-1) + 0.4*(phi_pi*Pi + phi_y*y) - 0.3*y(-1)"))
m.set_par(verbose=False, l_max=3, k_max=4)
def path(l, k, n):
    st, out = np.array([0.] * len(m.vv)), []
    for s in range(n):
        lk = (l - s, k) if s <= l else (0, max(k - s + l, 0))
        st = m.t_func(st, np.array([1.2 if s == 0 else 0.]), set_k=lk)[0]
        out.append(dict(zip(m.vv, st)))
    return out
p = dict(zip(m.par_names, m.par))
for l, k in ((0, 2), (1, 2), (2, 2)):
    P = path(l, k, l + k + 2)
    for a, b in zip(P[:-1], P[1:]):
        assert abs(a["y"] - (b["y"] - (a["r"] - b["Pi"]) - a["u"])) < 1e-8, (l, k)
''', "a spell that is expected to start two or more periods ahead", "the constant term of the anticipated path is dropped when the spell is at least two periods away, so the Euler equation does not hold along the path")

seed("s06a", "C06", [("pydsge/engine.py", "            if l and check_cnst(bmat, bterm, 0, l, k, q) - x_bar < 0:", "            if l and k < 3 and check_cnst(bmat, bterm, 0, l, k, q) - x_bar < 0:")],
     '''
m = build(NK2)
m.set_par(verbose=False, l_max=3, k_max=5)
rs = np.random.RandomState(0)
p = dict(zip(m.par_names, m.par))
ir = list(m.vv).index("r")
for i in range(20000):
    x, e = rs.randn(len(m.vv)), rs.randn(2) * 1.5
    st, (l, k), f = m.t_func(x, e, return_k=True)
    assert f or st[ir] >= p["x_bar"] - 1e-9, (x, e, l, k)
''', "a state in which the first consistent spell is an anticipated one of length three or more", "the constrained variable is below its bound in the current period although success is reported")

seed("s09a", "C09", [("pydsge/tools.py", "                    set_k_eff = 0, max(set_k_eff + set_l_eff - t, 0)", "                    set_k_eff = 0, max(set_k_eff - t, 0)")],
     '''
m = build(NK2)
m.set_par(verbose=False, l_max=3, k_max=5)
X, LK, f = m.irfs([("e_u", -1.5, 0)], T=6, set_k=(2, 3), verbose=0)
want = [(2, 3), (1, 3), (0, 3), (0, 2), (0, 1), (0, 0)]
got = [tuple(int(v) for v in c) for c in LK.T]
assert got == want, got
''', "requested durations with an onset in the future and a horizon that goes beyond the onset", "the requested spell is cut short by its onset")

seed("s01a", "C01", [("pydsge/parser.py", '                    var_l_1 = Variable(v.name + "_LAG" + str(i - 2), date=-1)', '                    var_l_1 = Variable(v.name + "_LAG" + str(min(i - 2, 2)), date=-1)')],
     '''
m = build(NK.replace("~ u = rho_u*u(-1) + e_u", "~ u = rho_u*u(-1) - 0.2*u(-5) + e_u"))
m.set_par(verbose=False, l_max=2, k_max=0)
st, us = np.zeros(len(m.vv)), []
iu = list(m.vv).index("u")
for t in range(8):
    st = m.t_func(st, np.array([1. if t == 0 else 0.]), linear=True)[0]
    us.append(st[iu])
want = [1.]
for t in range(1, 8):
    want.append(0.7 * want[-1] - 0.2 * (want[t - 5] if t >= 5 else 0))
assert np.allclose(us, want), (us, want)
''', "a variable with a lag of five or more periods", "the chain of auxiliary variables is closed too early, so the fifth lag is in fact the third one")

seed("s01b", "C01", [("pydsge/parser.py", '''                subs_dict = dict(zip(subs1, subs2))
                equations = [eq.subs(subs_dict) for eq in equations]''', '''                subs_dict = dict(zip(subs1, subs2))
                equations = [eq.subs(subs_dict) if eq.atoms(Shock) & set(subs1[:2]) else eq.subs(dict(zip(subs1[2:], subs2[1:]))) for eq in equations]''')],
     '''
m = build(NK.replace("~ u = rho_u*u(-1) + e_u", "~ u = rho_u*u(-1) + e_u + 0.5*e_u(-3)"))
m.set_par(verbose=False, l_max=2, k_max=0)
st, us = np.zeros(len(m.vv)), []
iu = list(m.vv).index("u")
for t in range(6):
    st = m.t_func(st, np.array([1. if t == 0 else 0.]), linear=True)[0]
    us.append(st[iu])
want = [1.]
for t in range(1, 6):
    want.append(0.7 * want[-1] + (0.5 if t == 3 else 0))
assert np.allclose(us, want), (us, want)
''', "a shock that enters an equation with a lag of three or more and no smaller lag", "the lagged shock arrives one period too early")

seed("s02a", "C02", [("pydsge/parser.py", '''                    return sol_dict[f, x]
''', '''                    return sol_dict[f, x[:1]]
'''), ("pydsge/parser.py", "                    sol_dict[f, x] = res", "                    sol_dict[f, x[:1]] = res")],
     '''
open(os.path.join(T, "m_funcs.py"), "w").write("def slope(th, be):\\n    return (1-th)*(1-be*th)/th\\n")
m = build(NK.replace("kappa: (1-theta)*(1-beta*theta)/theta", "kappa: slope(theta, beta)"))
m.set_par(verbose=False)
m.set_par("beta", 0.9)
assert abs(m.get_par("kappa") - (1 - .66) * (1 - .9 * .66) / .66) < 1e-10, m.get_par("kappa")
''', "a function of the functions file with two arguments of which only the second one changes", "the value of a parameter function of a previous parameter vector is reused")

seed("s03a", "C03", [("pydsge/tools.py", '''        obs = []
        for sti, par in zip(state, pars):
            self.set_par(par, get_hx_only=True)
            ob = (
                sti[:, : self.dimp] @ self.hx[0].T
                + sti[:, self.dimp:] @ self.hx[1].T
                + self.hx[2]''', '''        obs = []
        hxc = self.hx[2]
        for sti, par in zip(state, pars):
            self.set_par(par, get_hx_only=True)
            ob = (
                sti[:, : self.dimp] @ self.hx[0].T
                + sti[:, self.dimp:] @ self.hx[1].T
                + hxc''')],
     '''
m = build(NK)
m.set_par(verbose=False)
p = m.get_par()
ps = np.array([p, p])
ps[1, m.par_names.index("pi_mean")] = 2.
X = np.zeros((2, 3, len(m.vv)))
assert np.allclose(m.obs(X, pars=ps)[1][:, 0], 2.)
''', "observables for samples whose parameters differ in the constant of a measurement equation", "all samples get the constants of the current parameters")

seed("s08a", "C08", [("pydsge/tools.py", "    elif set_k is None or isinstance(set_k, bool):", "    elif not set_k or isinstance(set_k, bool):")],
     '''
m = build(NK)
m.set_par(verbose=False, l_max=2, k_max=3)
x = np.zeros(len(m.vv))
e = np.array([3.])
assert m.t_func(x, e, return_k=True)[1] != (0, 0)
assert np.allclose(m.t_func(x, e, set_k=0)[0], m.t_func(x, e, set_k=(0, 0))[0])
''', "a duration of zero requested as an integer in a state in which the constraint binds", "the request is ignored and the endogenous duration is used")

seed("s08b", "C08", [("pydsge/tools.py", "    if shocks is None:\n        shocks = np.zeros(dimeps)\n", "    if shocks is None:\n        shocks = np.zeros(dimeps)\n        set_k = 0 if set_k is None and not np.any(state[-1:]) else set_k\n")],
     '''
m = build(NK2)
m.set_par(verbose=False, l_max=2, k_max=3)
print(m.vv)
x = np.zeros(len(m.vv))
for n in ("u", "v"):
    for s in (-3., 3.):
        x[:] = 0
        x[list(m.vv).index(n)] = s
        a, b = m.t_func(x, return_k=True), m.t_func(x, np.zeros(2), return_k=True)
        assert a[1] == b[1] and np.allclose(a[0], b[0]), (n, s)
''', "no shocks passed and a last state of exactly zero", "the constraint is ignored")

seed("s09c", "C09", [("pydsge/tools.py", "        st_vec = state if state is not None else np.zeros(nstates)\n", "        st_vec = state if state is not None and not np.any(par) else np.zeros(nstates)\n")],
     '''
m = build(NK2)
m.set_par(verbose=False, l_max=2, k_max=3)
x = np.zeros(len(m.vv))
x[list(m.vv).index("v")] = 1.
p = m.get_par()
X = m.irfs([("e_u", 0., 0)], pars=p, state=x, T=2, verbose=0)[0]
assert abs(X["v"][0] - .4) < 1e-10
''', "initial state and parameters given together", "the response starts in the steady state instead of the given state")

seed("s10a", "C10", [("pydsge/tools.py", "            eps = np.where(np.isnan(mask), eps, operation(np.array(mask), eps))", "            eps = np.where(np.nan_to_num(mask) == 0, eps, operation(np.array(mask), eps))")],
     '''
m = build(NK2)
m.debug = True
m.set_par(verbose=False, l_max=2, k_max=3)
p = m.get_par()
eps = np.array([[.1, .2], [.3, .4]])
mask = np.array([[0., np.nan], [np.nan, 2.]])
X = m.simulate(mask=mask, pars=[p], resid=[eps], init=[np.zeros(len(m.vv))])[0][0]
Y = m.simulate(pars=[p], resid=[np.array([[0., .2], [.3, .8]])], init=[np.zeros(len(m.vv))])[0][0]
assert np.allclose(X, Y)
''', "a mask that contains a zero (a shock to be switched off)", "innovations that are masked with zero are left as they are")

seed("s10b", "C10", [("pydsge/tools.py", '''            superflag |= flag

            X.append(state)''', '''            superflag = flag if not state.any() else flag or superflag > flag > 0

            X.append(state)''')],
     '''
m = build(NK)
m.debug = True
m.set_par(verbose=False, l_max=2, k_max=1)
p = m.get_par()
eps = np.array([[20.], [-20.], [0.]])
st, fl = np.zeros(len(m.vv)), []
for e in eps:
    st, f = m.t_func(st, e)
    fl.append(f)
assert any(fl) and not fl[-1], fl
f = m.simulate(pars=[p], resid=[eps], init=[np.zeros(len(m.vv))])[2]
assert np.any(f), (f, fl)
''', "a transition without solution that is followed by one with a solution", "the error flag is lost")

seed("s12a", "C12", [("pydsge/stats.py", "            void = self.irfs((e, 0, 0), T=horizon, state=s[1], linear=linear)[", "            void = self.irfs((e, 0, 0), T=horizon, state=None if horizon > 2 else s[1], linear=linear)[")],
     '''
m = build(NK2)
m.debug = True
m.set_par(verbose=False, l_max=2, k_max=3)
p = m.get_par()
x = np.zeros((1, 3, len(m.vv)))
x[..., list(m.vv).index("v")] = 1.
d = {"means": x, "pars": np.array([p]), "resid": np.array([[[.1, .2], [.2, .1]]])}
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    vd = m.gfevd(d, horizon=3, linear=True)
assert vd.loc["e_u", "v"] < 1e-10, vd
''', "a horizon of three or more and a state away from the steady state", "the baseline without shock starts from the steady state")

seed("s13a", "C13", [("pydsge/mpile.py", "            par[self.prior_arg] = dummy", "            par[np.sort(self.prior_arg)] = dummy")],
     '''
m = build(NK2.replace("    kappa: [0.15, 0.01, 0.6, normal, 0.2, 0.05]\\n", "").replace("    sig_u: [0.3, 0.01, 3, inv_gamma_dynare, 0.3, 2]", "    sig_u: [0.3, 0.01, 3, inv_gamma_dynare, 0.3, 2]\\n    kappa: [0.15, 0.01, 0.6, normal, 0.2, 0.05]"))
m.set_par(verbose=False)
v = [.55, .4, .2, .15]
m.set_par(v)
assert [m.get_par(n) for n in m.prior_names] == v
''', "a prior that lists the parameters in another order than the calibration", "the values of a vector of estimated parameters are assigned to the wrong parameters")

seed("s13b", "C13", [("pydsge/gensys.py", '''        self.x_bar = pf[1](self.par)[pf[0].index("x_bar")]''', '''        self.x_bar = pf[1](self.p0())[pf[0].index("x_bar")]''')],
     '''
m = build(NK.replace("    x_bar: -0.15\\n", "").replace("  parafunc:\\n", "  parafunc:\\n    x_bar: -0.3*pi_mean\\n"))
m.set_par(verbose=False)
m.set_par("pi_mean", 1.)
assert abs(m.x_bar + .3) < 1e-12, m.x_bar
''', "a bound that is a function of parameters, after setting one of them", "the bound stays at its calibrated value")

seed("s14a", "C14", [("pydsge/mpile.py", '''            par = np.array(pars)
            par[self.prior_arg] = par_cand''', '''            par = np.asarray(pars)
            par[self.prior_arg] = par_cand''')],
     '''
m = build(NK2)
m.set_par(verbose=False)
c = m.get_par("calib").copy()
m.get_par("prior_mean")
assert np.allclose(m.get_par("calib"), c)
''', "a query for a named set of parameters followed by one for the calibration", "queries overwrite the calibration")

seed("s15a", "C15", [("pydsge/filtering.py", "            self.filter.P = F[:, dimp:] @ p4 @ F.T[dimp:] + self.filter.Q", "            self.filter.P = F[:, dimp:] @ p4 @ F.T[dimp:]")],
     '''
import pandas as pd
m = build(NK2)
m.set_par(verbose=False, l_max=2, k_max=0)
m.load_data(pd.DataFrame(np.random.RandomState(0).randn(10, 2) * .1, columns=["Infl", "FFR"]))
m.create_filter(ftype="KF", R=np.eye(2) * .1)
m.run_filter(smoother=False)
f = m.create_filter(ftype="KF", R=np.eye(2) * .1)
f.batch_filter = lambda z: (setattr(f, "P0", f.P.copy()), None, 0)
m.run_filter(smoother=False)
P = f.P0
assert np.allclose(P, f.F @ P @ f.F.T + f.Q, atol=1e-8)
''', "the Kalman filter with the default initial covariance", "the initial covariance is not the stationary one")

seed("s16a", "C16", [("pydsge/estimation.py", '''                        self.box_check([*pardict.values()])

                np.random.set_state(random_state)
                return -np.inf''', '''                        self.box_check([*pardict.values()])

                return -np.inf''')],
     '''
import pandas as pd
m = build(NK2)
m.load_data(pd.DataFrame(np.random.RandomState(0).randn(10, 2) * .1, columns=["Infl", "FFR"]))
m.set_par(verbose=False)
m.fdict["filter_R"] = np.eye(2) * .1
m.prep_estim(linear=True, verbose=False, debug=True)
def broken(*a, **k):
    raise ValueError
m.gen_sys = broken
np.random.seed(5)
m.lprob(np.array([.15, .6, .3, .1]))
a = np.random.rand()
np.random.seed(5)
assert a == np.random.rand()
''', "a proposal for which the evaluation fails", "the random number generator of the sampler is reset to the seed of the filter")

seed("s16b", "C16", [("pydsge/estimation.py", "        if np.isinf(ll):\n            return ll\n\n        ll += lp", "        if np.isinf(ll):\n            return ll\n\n        ll += lp if temp == 1 else lp * temp")],
     '''
import pandas as pd
m = build(NK2)
m.load_data(pd.DataFrame(np.random.RandomState(0).randn(10, 2) * .1, columns=["Infl", "FFR"]))
m.set_par(verbose=False)
m.fdict["filter_R"] = np.eye(2) * .1
m.prep_estim(linear=True, verbose=False, debug=True)
p = np.array([.15, .6, .3, .1])
l1, l5 = m.lprob(p), m.lprob(p, temp=.5)
lp = m.lprior(p)
assert abs(l5 - lp - .5 * (l1 - lp)) < 1e-8
''', "a temperature different from one", "the prior is tempered as well")

seed("s18a", "C18", [("pydsge/stats.py", "        lprobs = self.get_log_prob()[-tune:]", "        lprobs = self.get_log_prob()[-self.get_tune:]")],
     '''
import types
import pydsge.stats as sts
m = build(NK2)
m.set_par(verbose=False)
m.bptrans, m.tune = None, 4
rs = np.random.RandomState(0)
lp, ch = rs.randn(6, 3), rs.randn(6, 3, 4)
m.sampler = types.SimpleNamespace(get_log_prob=lambda **k: lp, get_chain=lambda **k: ch)
got = []
sts.ew.mdd_laplace = lambda c, l, **k: got.append((c, l)) or np.float64(0)
m.mdd(tune=2)
assert np.allclose(got[0][0], ch[-2:].reshape(-1, 4)) and np.allclose(got[0][1], lp[-2:].flatten())
''', "a length of the retained part that is passed explicitly", "densities and draws do not belong together")

seed("s20a", "C20", [("pydsge/clsmethods.py", "    path += suffix\n", '    path += suffix.replace(".npz", "")\n')],
     '''
m = build(NK)
m.path = T
m.save_rdict({"a": np.arange(3)}, "x", suffix="_v1.npz_old", verbose=False)
assert list(m.load_rdict("x", suffix="_v1.npz_old")["a"]) == [0, 1, 2]
''', "a suffix that contains the extension", "the results are not found")

seed("s20b", "C20", [("pydsge/clsmethods.py", '''    if not os.path.isabs(path):
        path = os.path.join(self.path, path)

    np.savez_compressed(path + suffix, **rdict)''', '''    if not os.path.isabs(path):
        path = os.path.join(self.path, path.strip())

    np.savez_compressed(path + suffix, **rdict)''')],
     '''
m = build(NK)
m.path = T
m.save_rdict({"a": np.arange(3)}, "run ", suffix="1", verbose=False)
assert list(m.load_rdict("run ", suffix="1")["a"]) == [0, 1, 2]
''', "a name with a blank at its end", "the results are stored under another name")

seed("s23a", "C23", [("pydsge/tools.py", "    if k is None or l is None:\n", "    if not k or l is None:\n")],
     '''
m = build(NK)
m.set_par(verbose=False, l_max=2, k_max=3)
s = m.shock2state(("e_u", 3., 0))
t = m.traj(s, l=0, k=0, verbose=False)
X = m.irfs(("e_u", 3., 0), T=len(t), linear=True, verbose=0)[0]
assert np.allclose(t, np.array(X["r"])), (t, X["r"])
''', "a trajectory requested for a duration of zero in a state in which the constraint binds", "the trajectory of the endogenous durations is returned")

seed("s24a", "C24", [("pydsge/clsmethods.py", "    return [list(self.observables).index(v) for v in observables]", "    return [i for i, v in enumerate(self.observables) if str(v) in [str(o) for o in observables]]")],
     '''
m = build(NK2)
m.set_par(verbose=False)
assert m.oix(["FFR", "Infl"]) == [1, 0]
''', "several observables asked for in another order than in the model file", "the indices come in the order of the model file")

NEG = 'm = build(NK2.replace("~ v = rho_v*v(-1) + e_v", "~ v = -0.9*v(-1) + e_v"))\n'

seed("s07a", "C07", [("pydsge/engine.py", """    for l in range(l_max):
        for k in range(1, k_max):
            if l and""", """    for l in range(l_max - 1):
        for k in range(1, k_max):
            if l and""")],
     NEG + """
m.set_par(verbose=False, l_max=2, k_max=4)
rs = np.random.RandomState(0)
best = 0
for sc in (1., 3.):
    for i in range(4000):
        x, e = rs.randn(len(m.vv)) * sc, rs.randn(2) * sc
        _, (l, k), f = m.t_func(x, e, return_k=True)
        if f == 0:
            best = max(best, l)
assert best == 3, best
""", "a state in which the only consistent spell starts at the longest admissible horizon", "an error flag is raised although a consistent spell exists")

seed("s09b", "C09", [("pydsge/tools.py", "                set_k_eff = (l - 1, k) if l else (l, max(k - 1, 0))", "                set_k_eff = (l - 1, k) if l > 1 else (0, max(k - 1, 0))")],
     NEG + """
m.set_par(verbose=False, l_max=2, k_max=4)
rs = np.random.RandomState(0)
seen = 0
for i in range(4000):
    x, e = rs.randn(len(m.vv)) * 3, rs.randn(2) * 3
    _, (l, k), f = m.t_func(x, e, return_k=True)
    if f or l != 1:
        continue
    seen += 1
    X, LK, f = m.irfs([("e_u", e[0], 0), ("e_v", e[1], 0), ("e_v", .1, 5)], state=x, T=3, verbose=0)
    lk = [tuple(int(v) for v in c) for c in LK.T]
    for a, b in zip(lk[:-1], lk[1:]):
        assert b == ((a[0] - 1, a[1]) if a[0] else (0, max(a[1] - 1, 0))), lk
    if seen == 3:
        break
assert seen
""", "an expected spell that starts in the next period, in a response with a later second shock", "the spell is shortened by one period when it starts")

seed("s11a", "C11", [("pydsge/stats.py", "            if k and rcons.sum():", "            if k and not l and rcons.sum():")],
     "import pandas as pd\n" + NEG + """
m.debug = True
m.set_par(verbose=False, l_max=2, k_max=4)
m.data = pd.DataFrame(np.zeros((3, 2)), columns=["Infl", "FFR"])
p = m.get_par()
rs = np.random.RandomState(0)
seen = 0
for i in range(4000):
    x, e = rs.randn(len(m.vv)) * 3, rs.randn(2) * 3
    _, (l, k), f = m.t_func(x, e, return_k=True)
    if f or not l:
        continue
    seen += 1
    with contextlib.redirect_stderr(io.StringIO()):
        hd, means = m.nhd({"init": x[None], "pars": np.array([p]), "resid": np.array([[e, [.2, -.1]]])})
    assert np.allclose(sum(h.to_numpy() for h in hd), means.to_numpy()), e
    if seen == 3:
        break
assert seen
""", "a sample in which the constraint is expected to bind in the future only", "the contributions do not sum to the path")

seed("s17a", "C17", [("pydsge/mcmc.py", "        arg_max = log_probs.argmax()", "        arg_max = log_probs.T.argmax()")],
     """
import types
m = build(NK2)
import pydsge.mcmc as mm
m.set_par(verbose=False)
m.ndim, m.bptrans, m.debug, m.pool = 4, None, True, None
m.fdict["seed"] = 0
m.filter = types.SimpleNamespace(name="KalmanFilter")
def lprob(*a, **k):
    return 0.
m.lprob = lprob
rs = np.random.RandomState(0)
lp, ch = rs.randn(6, 3), rs.randn(6, 3, 4)
lp[4, 2] = 9.
mm.ew.run_mcmc = lambda *a, **k: types.SimpleNamespace(get_log_prob=lambda **k: lp, get_chain=lambda **k: ch)
m.mcmc(p0=rs.randn(3, 4), nsteps=6, tune=4, backend=False, verbose=False)
assert np.allclose(m.fdict["mode_x"], ch[4, 2]), m.fdict["mode_x"]
""", "two or more walkers and a mode that is not at a symmetric position of the chain", "the recorded mode is another draw than the one with the highest density")

DATA = """
import pandas as pd
m = build(NK2)
m.set_par(verbose=False)
df = pd.DataFrame(np.random.RandomState(0).randn(10, 2) * .1, columns=["Infl", "FFR"], index=pd.date_range("1998-01-01", periods=10, freq="QS"))
"""

seed("s19a", "C19", [("pydsge/filtering.py", "        for natt in range(nattemps):", "        for natt in range(nattemps - (nattemps > 3)):")],
     DATA + """
m.load_data(df)
m.debug, m.pool = True, None
f = m.create_filter(R=np.eye(2) * .1, N=20)
calls = []
def npas(*a, **k):
    calls.append(0)
    if len(calls) < 4:
        raise ValueError("not yet")
    return np.zeros(f._dim_x if hasattr(f, "_dim_x") else m.dimx), np.zeros((1, 9, 2)), 0
f.npas = npas
with contextlib.redirect_stdout(io.StringIO()):
    m.extract(verbose=False, nattemps=4)
""", "a path adjustment that only succeeds in the last permitted attempt", "one attempt less than requested")

seed("s19b", "C19", [("pydsge/filtering.py", "                res[t + 1] = t_func(res[t], resid[t], linear=True)[0]", "                res[t + 1] = t_func(res[t], resid[t], linear=self.lks[1] < 1)[0]")],
     DATA.replace("build(NK2)", "build(NK2.replace('y(+1) -', '.5*y(+1) + .5*y(-1) -'))") + """
df["FFR"] += .5
m.set_par(verbose=False, l_max=2, k_max=4)
m.load_data(df)
m.debug, m.pool = True, None
f = m.create_filter(R=np.eye(2) * 1e-12, ftype="KF")
with contextlib.redirect_stdout(io.StringIO()):
    r = m.extract(verbose=False, l_max=2, k_max=4)
x = r["init"].ravel()[-m.dimx:]
for t, e in enumerate(np.array(r["resid"][0])):
    x = m.t_func(x, np.array(e, dtype=float), linear=True)[0]
    o = (np.hstack((m.hx[0], m.hx[1])) @ x + m.hx[2])
    assert np.allclose(o, df.to_numpy()[t + 1], atol=1e-4), (t, o)
""", "linear extraction in a model with the constrained system, with data in which the constraint would bind", "the extracted shocks do not reproduce the data")

seed("s26a", "C26", [("pydsge/tools.py", "        self.mapper(runner, zip(*sample)),\n", "        (self.pool.uimap if getattr(self, 'pool', None) and not self.debug else map)(runner, zip(*sample)),\n")],
     DATA + """
import pathos.pools
class Pool:
    def __init__(self, n=2):
        self.ncpus = n
    def imap(self, f, *a):
        return [f(*x) for x in zip(*a)]
    map = imap
    def uimap(self, f, *a):
        return self.imap(f, *a)[::-1]
    def close(self):
        pass
    clear = restart = join = terminate = close
pathos.pools.ProcessPool = Pool
m.create_pool(2)
p = np.array([m.par_fix, m.par_fix])
p[1, m.par_names.index("kappa")] = .3
R = np.random.RandomState(1)
e, x = R.randn(2, 3, 2) * .1, np.zeros((2, m.dimx))
a = m.simulate(pars=p, resid=e, init=x)[0]
m.pool = None
b = m.simulate(pars=p, resid=e, init=x)[0]
assert np.allclose(a, b)
""", "a worker that finishes a later sample before an earlier one", "the results are attributed to other samples")

seed("s26b", "C26", [("pydsge/tools.py", """        pelf = dill.loads(pickled_self)

        X = np.empty((T, nstates))
        K = np.empty(T)
        L = np.empty(T)
""", """        pelf = dill.loads(pickled_self)
"""), ("pydsge/tools.py", """    pickled_self = dill.dumps(self, recurse=True)

    def runner(par):
""", """    pickled_self = dill.dumps(self, recurse=True)

    X = np.empty((T, nstates))
    K, L = np.empty((2, T))

    def runner(par):
""")],
     DATA + """
m.debug, m.pool = True, None
p = np.array([m.par_fix, m.par_fix])
p[1, m.par_names.index("kappa")] = .3
a = m.irfs(("e_u", .1, 0), pars=p, T=4, verbose=0)[0]
b = m.irfs(("e_u", .1, 0), pars=p[:1], T=4, verbose=0)[0]
assert np.allclose(a[0], b[0])
""", "several samples that are evaluated serially", "all samples get the response of the last one")

seed("s27a", "C27", [("pydsge/clsmethods.py", "        d = df[self.observables]\n", "        d = df[[c for c in df.columns if c in self.observables]]\n")],
     DATA + """
m.load_data(df[["FFR", "Infl"]])
assert list(m.data.columns) == ["Infl", "FFR"]
""", "a frame whose columns are in another order than the declared observables", "the series are attributed to other observables")

seed("s27b", "C27", [("pydsge/clsmethods.py", "    if np.any(d.isna()):\n", "    if d.shape[0] and (d.isna().all(axis=1).any() or d.iloc[0].isna().any()):\n")],
     DATA + """
df.iloc[4, 1] = np.nan
try:
    m.load_data(df)
except Exception:
    sys.exit(0)
sys.exit(1)
""", "a single missing value in the middle of the sample", "missing values are accepted")

seed("s27c", "C27", [("pydsge/clsmethods.py", '    self.fdict["data"] = cpickle.dumps(d, protocol=4)', '    self.fdict["data"] = cpickle.dumps(df[self.observables].loc[start:] if end is None or start is None else d, protocol=4)')],
     DATA + """
import cloudpickle
m.load_data(df, end="1999-04-01")
assert len(cloudpickle.loads(m.fdict["data"])) == len(m.data)
""", "a range with an end but without a start", "the data that are saved differ from those of the model")

seed("s28a", "C28", [("pydsge/clsmethods.py", '            self.fdict["filter_R"] = self.filter.R\n', '            self.fdict.setdefault("filter_R", self.filter.R)\n')],
     DATA + """
m.load_data(df)
m.create_filter(R=np.eye(2), ftype="KF")
f = os.path.join(T, "a.npz")
m.save(f, verbose=False)
m.filter.R = np.eye(2) * 3
m.save(f, verbose=False)
assert np.allclose(DSGE.load(f).fdict["filter_R"], np.eye(2) * 3)
""", "saving again after the measurement errors have been changed", "the former measurement errors are saved")

seed("s28b", "C28", [("pydsge/parser.py", "                pmodel = deepcopy(processed_raw_model)", "                pmodel = processed_raw_model")],
     """
open(os.path.join(T, "m_funcs.py"), "w").write("def two():\\n    return 2\\n")
""" + DATA + """
m.load_data(df)
f, g = os.path.join(T, "a.npz"), os.path.join(T, "b.npz")
m.save(f, verbose=False)
m.load_data(df.iloc[2:])
m.save(g, verbose=False)
a = DSGE.load(f, force_parse=True)
b = DSGE.load(g, force_parse=True)
assert len(a.data) == 10 and len(b.data) == 8
""", "two files of the same model loaded in one session after the model has been parsed", "the later load changes the model that was loaded before")

seed("s29a", "C29", [("pydsge/estimation.py", """    if seed is None:
        if "seed" in self.fdict.keys():""", """    if not seed:
        if "seed" in self.fdict.keys():""")],
     DATA + """
m.load_data(df)
m.fdict["filter_R"] = np.eye(2) * .1
m.fdict["seed"] = 7
m.prep_estim(seed=0, linear=True, debug=True, verbose=False)
assert m.fdict["seed"] == 0
""", "requesting seed zero in a session with another stored seed", "the requested seed is ignored")

seed("s29b", "C29", [("pydsge/estimation.py", """        if "linear" in self.fdict.keys():
            linear = self.fdict["linear"]""", """        if "linear" in self.fdict.keys() and "filter_n" not in self.fdict.keys():
            linear = self.fdict["linear"]""")],
     DATA + """
m.load_data(df)
m.fdict["filter_R"] = np.eye(2) * .1
m.prep_estim(linear=True, debug=True, verbose=False)
m.prep_estim(debug=True, verbose=False)
assert m.filter.name == "KalmanFilter"
""", "a session in which the kind of the filter has been stored along with the size of the ensemble", "the stored kind of the filter is ignored")

seed("s30a", "C30", [("pydsge/mpile.py", "            p, linear=None, verbose=verbose > 1, use_prior_transform=False)", "            p, linear=None, verbose=verbose > 1)")],
     DATA + """
m.load_data(df)
m.fdict["filter_R"] = np.eye(2) * .1
m.prep_estim(linear=True, use_prior_transform=True, debug=True, verbose=False)
seen = []
ll = m.llike
def lprob(par, linear=None, verbose=False, temp=1, use_prior_transform=True):
    seen.append(np.array(m.bptrans(par) if use_prior_transform else par))
    return 0.
m.lprob = lprob
with contextlib.redirect_stderr(io.StringIO()):
    p = m.prior_sampler(1, seed=1, check_likelihood=True, verbose=False)
assert np.allclose(seen[-1], p[0])
""", "a session set up with the transformation of the prior, and draws whose likelihood is checked", "the likelihood of other parameters than those drawn is checked")

seed("s30b", "C30", [("pydsge/mpile.py", "        frozen_prior = get_prior(self.prior, verbose=verbose)[0]", "        frozen_prior = get_prior({k: self.prior[k] for k in map(str, self.parameters) if k in self.prior}, verbose=verbose)[0]")],
     """
m = build(NK2.replace("    kappa: [0.15, 0.01, 0.6, normal, 0.2, 0.05]\\n", "").replace("    sig_v: [", "    kappa: [0.15, 0.01, 0.6, normal, 0.2, 0.0001]\\n    sig_v: ["))
m.set_par(verbose=False)
m.debug = True
with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
    p = m.prior_sampler(2, seed=1, verbose=False)
assert np.allclose(p[:, list(m.prior).index("kappa")], .2, atol=.01), p
""", "a prior that is declared in another order than the parameters", "draws are attributed to other parameters")

seed("s04a", "C04", [("pydsge/gensys.py", """    fc0 = -fc0 / fb0[c_arg]
    fb0 = -fb0 / fb0[c_arg]
""", """    fb0 = -fb0 / fb0[c_arg]
    fc0 = fc0 / fb0[c_arg]
""")],
     """
m = build(NK2.replace("~ r = phi_pi*Pi + phi_y*y + v", "~ r = 0.5*r + .5*phi_pi*Pi + phi_y*y + 0.2*y(-1) + .5*v"))
m.set_par(verbose=False, l_max=2, k_max=1)
X = m.irfs([("e_u", 1., 0)], T=8, linear=True, verbose=0)[0]
y, r, Pi, v = (np.array(X[n]) for n in ("y", "r", "Pi", "v"))
assert np.allclose(r[1:], .5 * r[1:] + .5 * 1.7 * Pi[1:] + .2 * y[1:] + .2 * y[:-1] + .5 * v[1:], atol=1e-8)
""", "a constraint equation in which the coefficient of the constrained variable is not one, and which contains a lag", "the lags enter the constraint equation with another weight than the other terms")

seed("s21b", "C21", [("pydsge/parser.py", "            cached_models[len(cached_models)] = deepcopy(pmodel)", "            cached_models[len(cached_models)] = pmodel")],
     """
m = build(NK2)
m.prior["kappa"][4] = .7
m.fdict["mode_x"] = [1.]
n = build(NK2)
assert "mode_x" not in n.fdict and n.prior["kappa"][4] == .2
""", "reading a model again after the first one has been changed", "the changes are inherited")

seed("s22a", "C22", [("pydsge/mpile.py", "        if par[i] < lb[i]:\n", "        if np.round(par[i], 5) < lb[i]:\n")],
     """
m = build(NK2)
m.set_par(verbose=False)
m.fdict["prior_names"] = list(m.prior_names)
m.fdict["prior_bounds"] = np.array([[.01, .05, .01, .01], [.6, .98, 3, 3]])
o = io.StringIO()
with contextlib.redirect_stdout(o):
    m.box_check(np.array([.1, .5, .009999, .1]))
assert "sig_u" in o.getvalue(), o.getvalue()
""", "a parameter that is below its bound by less than the rounding of reports", "the violation is not reported")

seed("s25a", "C25", [("pydsge/filtering.py", "    obs_cov = np.diagflat(sig_obs)", "    obs_cov = np.diagflat(np.maximum(sig_obs, 1e-4))")],
     DATA + """
df["FFR"] = .001 * df["Infl"]
m.load_data(df)
R = m.create_obs_cov(.1)
assert np.allclose(np.diag(R), .01 * np.var(df.to_numpy(), axis=0), rtol=1e-6, atol=0), R
""", "a series with small variance", "its measurement error exceeds the requested share")
