"""Harness contexts: the same harness runs symbolically (all values) and concretely (one replayed value)."""

import math
import sys
import time
import traceback

import numpy as np


class Skip(BaseException):
    """concrete replay left the assumed region"""


class ConcCtx:
    """replay: inputs are the solver's values, the code is the unpatched one"""

    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.failures = []
        self.covers = {}
        self.used = {}

    def _get(self, name, default):
        v = self.inputs.get(name, default)
        self.used[name] = v
        return v

    def real(self, name, lo=-10.0, hi=10.0, default=None):
        d = default if default is not None else min(max(0.0, lo), hi)
        return min(max(float(self._get(name, d)), lo), hi)

    def int(self, name, lo, hi):
        return int(min(max(int(self._get(name, lo)), lo), hi))

    index = int

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        return options[int(self._get(name, 0)) % len(options)]

    def string(self, name, lens=(1,), chars="ab"):
        n = self.choice(name + "#", tuple(lens))
        codes = [int(self._get("%s#%d" % (name, i), ord(chars[0]))) for i in range(n)]
        return "".join(chr(c) if chr(c) in chars else chars[c % len(chars)] for c in codes)

    def vec(self, name, n, lo=-10.0, hi=10.0):
        return np.array([self.real("%s[%d]" % (name, i), lo, hi) for i in range(n)], dtype=float)

    def mat(self, name, n, m, lo=-10.0, hi=10.0):
        return self.vec(name, n * m, lo, hi).reshape(n, m)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def fail(self, label, detail=""):
        self.failures.append((label, str(detail)))

    def check(self, label, cond, detail=""):
        if not bool(cond):
            self.fail(label, detail)

    def close(self, label, a, b, tol=1e-7):
        a, b = _flat(a), _flat(b)
        if a.shape != b.shape:
            return self.fail(label, "shapes %s vs %s" % (a.shape, b.shape))
        for i, (x, y) in enumerate(zip(a, b)):
            x, y = float(x), float(y)
            if not (abs(x - y) <= tol) and not (x == y):
                return self.fail(label, "element %d: %r vs %r" % (i, x, y))

    def le(self, label, a, b, tol=0.0):
        for i, (x, y) in enumerate(zip(*np.broadcast_arrays(_flat(a), _flat(b)))):
            if not float(x) <= float(y) + tol:
                return self.fail(label, "element %d: %r > %r" % (i, x, y))

    def implies(self, label, p, q, detail=""):
        if p and not q:
            self.fail(label, detail)

    def unsupported(self, why):
        raise Skip()

    def mode(self, **k):
        pass

    def and_(self, *c):
        return all(bool(x) for x in c)

    def or_(self, *c):
        return any(bool(x) for x in c)

    def not_(self, c):
        return not c


def _flat(x):
    if hasattr(x, "to_numpy"):
        x = x.to_numpy()
    return np.asarray(x, dtype=object).reshape(-1)


class SymCtx:
    symbolic = True
    max_cands = 6

    def __init__(self, eng, seed=1):
        import z3
        from . import core

        self.z3, self.core, self.eng = z3, core, eng
        self.cands = []
        self.labels = {}
        self.seen_bad = {}
        self.kinds = {}

    # ---------------------------------------------------------------- inputs
    def _bounded(self, name, term, lo, hi, kind):
        self.eng.inputs[name] = (kind, term)
        self.kinds[name] = (kind, lo, hi)
        self.eng.add(self.z3.And(term >= self.core.rval(lo) if kind == "real" else term >= lo, term <= self.core.rval(hi) if kind == "real" else term <= hi))

    def real(self, name, lo=-10.0, hi=10.0, default=None):
        c = self.core
        self._bounded(name, c._const(name), lo, hi, "real")
        return c.SymReal({name: 1.0}, 0.0)

    def int(self, name, lo, hi):
        t = self.z3.Int(name)
        self._bounded(name, t, lo, hi, "int")
        return self.core.SymInt(t)

    def index(self, name, lo, hi):
        """an integer that is enumerated (one path per value)"""
        return self.eng.enum_int(self.int(name, lo, hi).t)

    def bool(self, name):
        t = self.z3.Bool(name)
        self.eng.inputs[name] = ("bool", t)
        return self.core.SymBool(t)

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        return options[self.index(name, 0, len(options) - 1)]

    def string(self, name, lens=(1,), chars="ab"):
        n = self.choice(name + "#", tuple(lens))
        out = []
        for i in range(n):
            v = self.int("%s#%d" % (name, i), 0, 255).t
            self.eng.add(self.z3.Or([v == ord(c) for c in chars]))
            out.append(v)
        return self.core.SymStr.make(out)

    def vec(self, name, n, lo=-10.0, hi=10.0):
        from .npshim import SymArray

        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = self.real("%s[%d]" % (name, i), lo, hi)
        return a.view(SymArray)

    def mat(self, name, n, m, lo=-10.0, hi=10.0):
        return self.vec(name, n * m, lo, hi).reshape(n, m)

    # ---------------------------------------------------------------- assumptions
    def _t(self, c):
        t = self.core.bterm(c)
        if t is None:
            t = self.z3.BoolVal(bool(c))
        return t

    def assume(self, cond):
        self.eng.assume(self._t(cond))
        if self._t(cond).eq(self.z3.BoolVal(False)):
            raise self.core.PathAbort()

    def and_(self, *c):
        return self.core.mkbool(self.z3.And([self._t(x) for x in c]))

    def or_(self, *c):
        return self.core.mkbool(self.z3.Or([self._t(x) for x in c]))

    def not_(self, c):
        return self.core.mkbool(self.z3.Not(self._t(c)))

    def cover(self, label):
        if label not in self.eng.covers:
            # a witness that the point is reachable
            if self.eng.pos >= len(self.eng.trace):
                self.eng.feasible_model()
            self.eng.covers[label] = 0
        self.eng.covers[label] += 1

    def unsupported(self, why):
        raise self.core.Unsupported(why)

    def mode(self, **k):
        """exact=True: exact coefficients; havoc=True: decompositions of symbolic matrices return arbitrary values"""
        for n, v in k.items():
            setattr(self.eng, n, v)

    # ---------------------------------------------------------------- assertions
    def _values(self, m):
        out = {}
        for name, (kind, t) in self.eng.inputs.items():
            v = m.eval(t, model_completion=True)
            if kind == "real":
                out[name] = float(self.core.model_frac(m, t))
            elif kind == "int":
                out[name] = v.as_long()
            elif kind == "bool":
                out[name] = bool(self.z3.is_true(v))
            else:
                out[name] = v.as_string()
        return out

    def _candidate(self, label, neg, neg_strong=None, detail=""):
        """solve for a counterexample that survives rounding to doubles"""
        e = self.eng
        done = None
        lits = list(e.lits)
        for eps in (1e-3, 1e-5, 1e-7, None):
            extra = [neg_strong if (neg_strong is not None and eps is not None) else neg]
            if eps is not None:
                extra += [strengthen(self.z3, l, eps) for l in lits]
                if neg_strong is None:
                    extra[0] = strengthen(self.z3, neg, eps)
            r = e.query(*extra, timeout=5000)
            if str(r) == "sat":
                done = e.last_model
                break
        if done is None:
            return
        self.cands.append(dict(label=label, detail=detail, inputs=self._values(done)))

    def _assert(self, label, good, strong_bad=None, detail=""):
        z3, e = self.z3, self.eng
        self.labels[label] = self.labels.get(label, 0) + 1
        e.stats["checks"] += 1
        good = z3.simplify(good)
        if z3.is_true(good):
            e.stats["trivial"] += 1
            e.stats["discharged"] += 1
            return
        if self.seen_bad.get(label, 0) >= 2:
            return
        bad = z3.Not(good)
        r = e.query(bad, timeout=min(4000, e.timeout_ms))
        if str(r) == "unknown":
            r = e.query(bad, timeout=e.timeout_ms, nra=True)
        if str(r) == "unsat":
            e.stats["discharged"] += 1
            return
        if str(r) == "unknown":
            e.stats["undecided"] = e.stats.get("undecided", 0) + 1
            return
        model = e.last_model
        self.seen_bad[label] = self.seen_bad.get(label, 0) + 1
        n = len(self.cands)
        if n < self.max_cands:
            self._candidate(label, bad, strong_bad, detail)
            if len(self.cands) == n:
                self.cands.append(dict(label=label, detail=detail, inputs=self._values(model)))

    def check(self, label, cond, detail=""):
        self._assert(label, self._t(cond), None, detail)

    def fail(self, label, detail=""):
        self._assert(label, self.z3.BoolVal(False), None, detail)

    def implies(self, label, p, q, detail=""):
        self._assert(label, self.z3.Or(self.z3.Not(self._t(p)), self._t(q)), None, detail)

    def close(self, label, a, b, tol=1e-7):
        z3 = self.z3
        a, b = _flat(a), _flat(b)
        if a.shape != b.shape:
            return self.fail(label, "shapes %s vs %s" % (a.shape, b.shape))
        good, strong, polys = [], [], []
        T, S = self.core.rval(tol), self.core.rval(tol * 1000 + 1e-6)
        for x, y in zip(a, b):
            for v in (x, y):
                if not isinstance(v, self.core.Sym) and not math.isfinite(v):
                    if x is y or (not isinstance(x, self.core.Sym) and not isinstance(y, self.core.Sym) and x == y):
                        break
                    return self.fail(label, "not finite: %r vs %r" % (x, y))
            else:
                d = x - y
                if isinstance(d, self.core.Sym):
                    t = self.core.rterm(d)
                    polys.append(d)
                    good.append(z3.And(t <= T, t >= -T))
                    strong.append(z3.Or(t > S, t < -S))
                elif not abs(d) <= tol:
                    return self.fail(label, "%r vs %r" % (x, y))
        if polys and self._abstract(polys, T):
            self.labels[label] = self.labels.get(label, 0) + 1
            self.eng.stats["checks"] += 1
            self.eng.stats["discharged"] += 1
            return
        self._assert(label, z3.And(good) if good else z3.BoolVal(True), z3.Or(strong) if strong else None)

    def _abstract(self, polys, T):
        """linear query in which every monomial is a free variable within its interval: unsat implies the assertion"""
        if not any(getattr(d, "lin", None) and any(type(v) is tuple for v in d.lin) for d in polys):
            return False
        z3, core = self.z3, self.core
        s = z3.SolverFor("QF_LRA")
        seen, bad = {}, []
        for d in polys:
            if getattr(d, "lin", None) is None:
                return False
            parts = [core.cval(d.c)]
            for v, k in d.lin.items():
                if v not in seen:
                    lo, hi = 1.0, 1.0
                    for n in (v if type(v) is tuple else (v,)):
                        if n not in self.kinds or self.kinds[n][0] != "real":
                            return False
                        a, b = self.kinds[n][1:]
                        e = [lo * a, lo * b, hi * a, hi * b]
                        lo, hi = min(e), max(e)
                    w = 1e-9 * max(abs(lo), abs(hi))
                    seen[v] = x = z3.Real("mono!%d" % len(seen))
                    s.add(x >= core.rval(lo - w), x <= core.rval(hi + w))
                parts.append(core.cval(k) * seen[v])
            t = z3.Sum(parts)
            bad.append(z3.Or(t > T, t < -T))
        s.add(z3.Or(bad))
        t0 = time.time()
        r = s.check()
        e = self.eng
        e.stats["queries"] += 1
        e.stats["solver_s"] += time.time() - t0
        e.stats[str(r)] += 1
        return r == z3.unsat

    def le(self, label, a, b, tol=0.0):
        z3 = self.z3
        good, strong = [], []
        for x, y in zip(*np.broadcast_arrays(_flat(a), _flat(b))):
            for v in (x, y):
                if not isinstance(v, self.core.Sym) and v != v:
                    return self.fail(label, "nan")
            d = x - y
            if isinstance(d, self.core.Sym):
                t = self.core.rterm(d)
                good.append(t <= self.core.rval(tol))
                strong.append(t > self.core.rval(tol * 1000 + 1e-6))
            elif not d <= tol:
                return self.fail(label, "%r > %r" % (x, y))
        self._assert(label, z3.And(good) if good else z3.BoolVal(True), z3.Or(strong) if strong else None)


def strengthen(z3, t, eps):
    """comparison with a safety margin, so that the sign survives rounding"""
    neg = False
    if z3.is_not(t):
        neg, t0 = True, t.arg(0)
    else:
        t0 = t
    if z3.is_and(t0) or z3.is_or(t0):
        kids = [strengthen(z3, z3.Not(c) if neg else c, eps) for c in t0.children()]
        conj = z3.is_and(t0) != neg
        return z3.And(kids) if conj else z3.Or(kids)
    if t0.num_args() != 2 or not z3.is_arith(t0.arg(0)) or not z3.is_real(t0.arg(0)):
        return t
    a, b = t0.arg(0), t0.arg(1)
    m = z3.RealVal(str(eps)) if eps >= 1e-4 else z3.RealVal("%.12f" % eps)
    if z3.is_le(t0) or z3.is_lt(t0):
        return a >= b + m if neg else a <= b - m
    if z3.is_ge(t0) or z3.is_gt(t0):
        return a <= b - m if neg else a >= b + m
    if z3.is_eq(t0) and neg:
        return z3.Or(a >= b + m, a <= b - m)
    return t
