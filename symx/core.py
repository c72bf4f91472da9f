"""Symbolic values and the path explorer.

The functions of /repo are executed natively by the Python interpreter; their
inputs are the objects below, whose operators build SMT terms.  A branch on a
symbolic condition asks the solver which sides are feasible and the function is
re-executed once per feasible path (depth first).  Reals are mathematical
reals, ints mathematical integers (Python's own semantics), strings the
solver's sequence theory.
"""

import math
import time
import traceback
from fractions import Fraction

import z3

ENG = None  # the engine of the running exploration (None: concrete mode)


class PathAbort(BaseException):
    """path is infeasible / cut: steer the explorer (not an Exception: code under test must not catch it)"""


class Budget(BaseException):
    """path or time budget of the exploration exhausted"""


class Unsupported(Exception):
    """the code under test did something with a symbolic value which has no encoding"""


class Cex(BaseException):
    """a check has a satisfying negation"""

    def __init__(self, label, inputs, detail):
        self.label, self.inputs, self.detail = label, inputs, detail


def _isnum(x):
    return isinstance(x, (int, float, Fraction)) or type(x).__module__ == "numpy" and hasattr(x, "item") and getattr(x, "ndim", 1) == 0


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    x = x.item() if hasattr(x, "item") else x
    return Fraction(x)


def num(x):
    """coefficients are computed in double precision, like the code itself does (or exactly, if the engine says so)"""
    if ENG is not None and ENG.exact:
        return frac(x)
    return x if type(x) is float else float(x)


def rval(x):
    """exact rational of a concrete number"""
    f = frac(x)
    if f.denominator == 1:
        return z3.RealVal(f.numerator)
    return z3.Q(f.numerator, f.denominator)


QUANT = 2.0 ** 34


def cval(k):
    """coefficient of an affine form: rounded to a multiple of 2**-34 (6e-11), far below the tolerances, which keeps the solver's rationals short"""
    if isinstance(k, Fraction):
        return rval(k)
    if abs(k) < 1e15:
        return rval(Fraction(int(round(k * QUANT)), int(QUANT)))
    return rval(k)


def _finite(x):
    try:
        return math.isfinite(x)
    except (TypeError, OverflowError):
        return True


_REG = {}  # pickling by reference: dill round trips inside one process


def _from_reg(key):
    return _REG[key]


class Sym:
    __slots__ = ()
    # no array priority: numpy arrays apply their operators elementwise

    def __reduce__(self):
        _REG[id(self)] = self
        return (_from_reg, (id(self),))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.fork(self.t)

    def __and__(self, o):
        o = bterm(o)
        return mkbool(z3.And(self.t, o)) if o is not None else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        o = bterm(o)
        return mkbool(z3.Or(self.t, o)) if o is not None else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        o = bterm(o)
        return mkbool(z3.Xor(self.t, o)) if o is not None else NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        o = bterm(o)
        return mkbool(self.t == o) if o is not None else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return self.t.hash()

    def _num(self):
        return SymReal(t=z3.If(self.t, z3.RealVal(1), z3.RealVal(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "SymBool(%s)" % self.t


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(x):
    """z3 Bool of a concrete/symbolic truth value (None if it is not one)"""
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool) or type(x).__name__ in ("bool", "bool_"):
        return z3.BoolVal(bool(x))
    if isinstance(x, (SymReal, SymInt)):
        return rterm(x) != 0
    return None


POLY_TERMS, POLY_DEG = 400, 6


def poly_mul(a, b):
    """product of two polynomials (None if it gets too large)"""
    if (len(a.lin) + 1) * (len(b.lin) + 1) > POLY_TERMS:
        return None
    d = {}
    A = list(a.lin.items()) + ([((), a.c)] if a.c != 0 else [])
    B = list(b.lin.items()) + ([((), b.c)] if b.c != 0 else [])
    c = 0.0
    for u, x in A:
        u = (u,) if type(u) is str else u
        for v, y in B:
            w = u + ((v,) if type(v) is str else v)
            if len(w) > POLY_DEG:
                return None
            k = x * y
            if not w:
                c = c + k
                continue
            w = w[0] if len(w) == 1 else tuple(sorted(w))
            k = d.get(w, 0) + k
            if k:
                d[w] = k
            else:
                d.pop(w, None)
    return mkreal(d, c)


class SymReal(Sym):
    """real number: a polynomial over named inputs (keys are names, or sorted tuples of names), or any z3 real term"""

    __slots__ = ("lin", "c", "_t")

    def __init__(self, lin=None, c=0, t=None):
        self.lin = lin  # {z3 const name: Fraction} or None if not affine
        self.c = c
        self._t = t

    # ---- term
    @property
    def t(self):
        if self._t is None:
            parts = [cval(k) * _const(v) if k != 1 else _const(v) for v, k in self.lin.items()]
            if self.c != 0 or not parts:
                parts.append(cval(self.c))
            self._t = z3.Sum(parts) if len(parts) > 1 else parts[0]
        return self._t

    def __add__(self, o):
        if isinstance(o, SymReal):
            if self.lin is not None and o.lin is not None:
                d = dict(self.lin)
                for v, k in o.lin.items():
                    k = d.get(v, 0) + k
                    if k:
                        d[v] = k
                    else:
                        del d[v]
                return mkreal(d, self.c + o.c)
            return SymReal(t=self.t + o.t)
        if isinstance(o, (SymInt, SymBool)):
            return self + o._num()
        if _isnum(o):
            if not _finite(o):
                return float(o)
            o = num(o)
            if o == 0:
                return self
            if self.lin is not None:
                return mkreal(self.lin, self.c + o)
            return SymReal(t=self.t + rval(o))
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        if self.lin is not None:
            return SymReal({v: -k for v, k in self.lin.items()}, -self.c)
        return SymReal(t=-self.t)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if _isnum(o) or isinstance(o, Sym):
            return self + (-o)
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, SymReal):
            if self.lin is not None and o.lin is not None and (ENG is None or ENG.poly):
                r = poly_mul(self, o)
                if r is not None:
                    return r
            return SymReal(t=self.t * o.t)
        if isinstance(o, (SymInt, SymBool)):
            return self * o._num()
        if _isnum(o):
            if not _finite(o):
                if o != o:
                    return float("nan")
                if self > 0:
                    return float(o)
                return float(-o) if self < 0 else float("nan")
            o = num(o)
            if o == 0:
                return 0.0
            if o == 1:
                return self
            if self.lin is not None:
                return SymReal({v: k * o for v, k in self.lin.items()}, self.c * o)
            return SymReal(t=self.t * rval(o))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _isnum(o):
            if not _finite(o):
                return 0.0 if o == o else float("nan")
            o = num(o)
            if o == 0:
                raise ZeroDivisionError("symbolic value divided by zero")
            if self.lin is not None:
                return SymReal({v: k / o for v, k in self.lin.items()}, self.c / o)
            return SymReal(t=self.t / rval(o))
        if isinstance(o, (SymInt, SymBool)):
            o = o._num()
        if isinstance(o, SymReal):
            return self * o._recip()
        return NotImplemented

    def _recip(self):
        # y = 1/x as a fresh variable with x*y == 1; x == 0 (inf/nan in numpy, an exception in Python) is excluded and counted
        if self == 0:
            ENG.stats["div0"] = ENG.stats.get("div0", 0) + 1
            raise PathAbort()
        return ENG.recip(self)

    def __rtruediv__(self, o):
        if _isnum(o):
            return self._recip() * o
        return NotImplemented

    def __pow__(self, n):
        if isinstance(n, float) and n.is_integer():
            n = int(n)
        if hasattr(n, "item"):
            n = n.item()
        if isinstance(n, int):
            if n == 0:
                return 1.0
            r = self
            for _ in range(abs(n) - 1):
                r = r * self
            return r if n > 0 else r._recip()
        if n == 0.5:
            return self.sqrt()
        return ENG.ufunc("pow", self, n)

    def __rpow__(self, o):
        return ENG.ufunc("pow", o, self)

    def __abs__(self):
        return SymReal(t=z3.If(self.t >= 0, self.t, -self.t))

    def sqrt(self):
        return ENG.sqrt(self)

    def exp(self):
        return ENG.ufunc("exp", self)

    def log(self):
        return ENG.ufunc("log", self)

    def conjugate(self):
        return self

    def _cmp(self, o, op):
        if isinstance(o, (SymInt, SymBool)):
            o = o._num()
        if isinstance(o, SymReal):
            if self.lin is not None and o.lin is not None:
                d = self - o
                if not isinstance(d, SymReal):
                    return op(d, 0)
                return mkbool(op(d.t, 0))
            return mkbool(op(self.t, o.t))
        if _isnum(o):
            if not _finite(o):
                return op(0.0, float(o))
            return mkbool(op(self.t, rval(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return self.t.hash()

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        return float(ENG.realise(self))

    def __int__(self):
        return int(ENG.realise(self))

    def __round__(self, n=0):
        return ENG.rounded(self, n or 0)

    def round(self, n=0, *a, **k):
        return ENG.rounded(self, n)

    def rint(self):
        return ENG.rounded(self, 0)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def copy(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return "SymReal"

    def __format__(self, spec):
        return "<sym>"


def mkreal(lin, c):
    if not lin:
        return c
    return SymReal(lin, c)


_CONSTS = {}


def _const(name):
    r = _CONSTS.get(name)
    if r is None:
        if type(name) is tuple:
            r = _const(name[0])
            for n in name[1:]:
                r = r * _const(n)
        else:
            r = z3.Real(name)
        _CONSTS[name] = r
    return r


def rterm(x):
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, SymInt):
        return z3.ToReal(x.t)
    if isinstance(x, SymBool):
        return x._num().t
    return rval(x)


class SymInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _num(self):
        return SymReal(t=z3.ToReal(self.t))

    def _bin(self, o, f, rev=False):
        if isinstance(o, SymInt):
            o = o.t
        elif isinstance(o, bool) or isinstance(o, int) or type(o).__name__.startswith(("int", "uint")):
            o = z3.IntVal(int(o))
        elif isinstance(o, SymBool):
            o = z3.If(o.t, z3.IntVal(1), z3.IntVal(0))
        elif isinstance(o, (float, SymReal, Fraction)) or _isnum(o):
            a = self._num()
            return f(o, a) if rev else f(a, o)
        else:
            return NotImplemented
        r = z3.simplify(f(o, self.t) if rev else f(self.t, o))
        if z3.is_int_value(r):
            return r.as_long()
        if z3.is_bool(r):
            return mkbool(r)
        return SymInt(r)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.t)

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        return self._num() / (o._num() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self._num()

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(self.t / z3.IntVal(o))
        return int(self) // int(o)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return SymInt(self.t % z3.IntVal(o))
        return int(self) % int(o)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._bin(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(int(self))

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return ENG.enum_int(self.t)

    __int__ = __index__

    def __float__(self):
        return float(int(self))

    def __repr__(self):
        return "SymInt(%s)" % self.t


class SymStr(Sym):
    """a string of known length whose characters may be symbolic (integers: code points)"""

    __slots__ = ("c",)

    def __init__(self, chars):
        self.c = tuple(chars)

    @staticmethod
    def chars(o):
        if isinstance(o, SymStr):
            return o.c
        if isinstance(o, str):
            return tuple(o)
        return None

    @staticmethod
    def make(chars):
        chars = tuple(chars)
        return "".join(chars) if all(isinstance(x, str) for x in chars) else SymStr(chars)

    @staticmethod
    def same(a, b):
        if len(a) != len(b):
            return z3.BoolVal(False)
        code = lambda x: z3.IntVal(ord(x)) if isinstance(x, str) else x
        if any(isinstance(x, str) and isinstance(y, str) and x != y for x, y in zip(a, b)):
            return z3.BoolVal(False)
        return z3.And([code(x) == code(y) for x, y in zip(a, b)])

    def __eq__(self, o):
        o = self.chars(o)
        return False if o is None else mkbool(self.same(self.c, o))

    def __ne__(self, o):
        o = self.chars(o)
        return True if o is None else mkbool(z3.Not(self.same(self.c, o)))

    def __hash__(self):
        return 0  # all collide: dict lookups fall back to ==, which forks

    def __add__(self, o):
        o = self.chars(o)
        return NotImplemented if o is None else SymStr(self.c + o)

    def __radd__(self, o):
        o = self.chars(o)
        return NotImplemented if o is None else SymStr(o + self.c)

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        return (self.make([x]) for x in self.c)

    def __getitem__(self, i):
        return self.make(self.c[i]) if isinstance(i, slice) else self.make([self.c[i]])

    def endswith(self, s):
        ss = s if isinstance(s, tuple) else (s,)
        ss = [self.chars(x) for x in ss]
        return mkbool(z3.Or([self.same(self.c[len(self.c) - len(x):], x) for x in ss if len(x) <= len(self.c)] + [z3.BoolVal(False)]))

    def startswith(self, s):
        ss = s if isinstance(s, tuple) else (s,)
        ss = [self.chars(x) for x in ss]
        return mkbool(z3.Or([self.same(self.c[: len(x)], x) for x in ss if len(x) <= len(self.c)] + [z3.BoolVal(False)]))

    def removesuffix(self, s):
        return self[: len(self.c) - len(s)] if self.endswith(s) else self

    def removeprefix(self, s):
        return self[len(s):] if self.startswith(s) else self

    def find(self, s, *a):
        s = self.chars(s)
        lo, hi, _ = slice(*(a + (None,) * (2 - len(a)))).indices(len(self.c))
        for i in range(lo, hi - len(s) + 1):
            if mkbool(self.same(self.c[i: i + len(s)], s)):
                return i
        return -1

    def rfind(self, s):
        s = self.chars(s)
        for i in range(len(self.c) - len(s), -1, -1):
            if mkbool(self.same(self.c[i: i + len(s)], s)):
                return i
        return -1

    def partition(self, s):
        i = self.find(s)
        return (self, "", "") if i < 0 else (self[:i], s, self[i + len(s):])

    def rpartition(self, s):
        i = self.rfind(s)
        return ("", "", self) if i < 0 else (self[:i], s, self[i + len(s):])

    def split(self, s=None, maxsplit=-1):
        if s is None:
            raise Unsupported("split at blanks")
        out, r = [], self
        while maxsplit != 0:
            a, b, c = r.partition(s) if isinstance(r, SymStr) else r.partition(s)
            if not b:
                break
            out.append(a)
            r, maxsplit = c, maxsplit - 1
        return out + [r]

    def rsplit(self, s=None, maxsplit=-1):
        if s is None or maxsplit != 1:
            raise Unsupported("rsplit")
        a, b, c = self.rpartition(s)
        return [a, c] if b else [self]

    def replace(self, a, b, n=-1):
        parts = self.split(a, n)
        r = parts[0]
        for p in parts[1:]:
            r = r + b + p
        return r

    def __contains__(self, s):
        return self.find(s) >= 0

    def _strips(self, chars, left, right):
        chars = " \t\n\r\x0b\x0c" if chars is None else chars
        is_in = lambda x: mkbool(z3.Or([self.same((x,), (c,)) for c in chars] + [z3.BoolVal(False)]))
        c = list(self.c)
        while left and c and is_in(c[0]):
            c = c[1:]
        while right and c and is_in(c[-1]):
            c = c[:-1]
        return self.make(c)

    def strip(self, chars=None):
        return self._strips(chars, True, True)

    def lstrip(self, chars=None):
        return self._strips(chars, True, False)

    def rstrip(self, chars=None):
        return self._strips(chars, False, True)

    def _map(self, f):
        def one(x):
            if isinstance(x, str):
                return f(x)
            for o in range(128):
                if f(chr(o)) != chr(o) and mkbool(x == o):
                    return f(chr(o))
            return x

        return self.make([one(x) for x in self.c])

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    casefold = lower

    def count(self, s):
        return len(self.split(s)) - 1

    def index(self, s, *a):
        i = self.find(s, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def join(self, parts):
        r = ""
        for i, p in enumerate(parts):
            r = r + (self if i else "") + p
        return r

    def encode(self, *a):
        return self

    def __str__(self):
        return "<symbolic string>"

    def __format__(self, spec):
        return "<symbolic string>"

    def __fspath__(self):
        raise Unsupported("symbolic path reaches the file system")

    def __repr__(self):
        return "SymStr(%r)" % (self.c,)


# --------------------------------------------------------------------------------------
class Engine:
    """depth-first exploration by re-execution; the solver is rebuilt on every path"""

    exact = False  # coefficients as fractions
    poly = True  # products are expanded to polynomials
    havoc = False  # results of decompositions of symbolic matrices are arbitrary (no contract)

    def __init__(self, timeout_ms=30000, max_paths=200000, deadline=None, fork_timeout_ms=10000):
        self.timeout_ms = timeout_ms
        self.fork_timeout_ms = fork_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.trace = []  # [decision, candidate value, other side open]
        self.solver = z3.Solver()
        self.level = 0  # pushed frames of the solver = decisions it contains
        self.keep = 0  # decisions of this path which the solver already contains
        self.stats = dict(paths=0, completed=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, forks=0, checks=0, discharged=0, trivial=0, realised=0, unknown_forks=0)
        self.realised_at = []
        self.covers = {}
        self.started = False
        self.start_path()

    # ---- path bookkeeping
    def start_path(self):
        self.pos = 0
        # everything up to the flipped decision is still on the solver's stack
        self.live = len(self.trace) if self.trace else 0
        if self.level > max(len(self.trace) - 1, 0):
            self.solver.pop(self.level - max(len(self.trace) - 1, 0))
            self.level = max(len(self.trace) - 1, 0)
        if self.trace and not self.started:
            raise RuntimeError
        self.started = True
        self.fresh_id = 0
        self.asserts = []
        self.lits = []
        self.inputs = {}
        self.defs = {}
        self.model = None

    def add(self, t):
        self.asserts.append(t)
        if self.pos >= self.live:
            self.solver.add(t)
        if self.model is not None and not z3.is_true(self.model.eval(t, model_completion=True)):
            self.model = None

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget")

    def query(self, *assumps, timeout=None, nra=False):
        self.tick()
        s = self.solver
        t0 = time.time()
        to = timeout or self.timeout_ms
        if self.deadline:
            to = max(100, min(to, int((self.deadline - t0) * 1000)))
        if nra:
            s = z3.SolverFor("QF_NRA")
            s.add(*self.asserts)
        s.set("timeout", to)
        if not nra:
            s.push()
        s.add(*assumps)
        r = s.check()
        self.last_model = s.model() if r == z3.sat else None
        if not nra:
            s.pop()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        self.stats[str(r)] += 1
        return r

    def feasible_model(self):
        if self.model is None:
            r = self.query(timeout=self.fork_timeout_ms)
            if r == z3.unsat:
                raise PathAbort()
            self.model = self.last_model
        return self.model

    def _push(self):
        if self.pos >= self.live:
            self.solver.push()
            self.level += 1

    def _decide(self, t, cand=None):
        if self.pos < len(self.trace):
            d = self.trace[self.pos][0]
            self.pos += 1
            self._push()
            self.lits.append(t if d else z3.Not(t))
            self.add(t if d else z3.Not(t))
            return d
        self.stats["forks"] += 1
        self.tick()
        m = self.feasible_model()
        first = None
        if m is not None:
            v = m.eval(t, model_completion=True)
            first = True if z3.is_true(v) else False if z3.is_false(v) else None
        if first is None:
            r = self.query(t, timeout=self.fork_timeout_ms)
            if r == z3.unsat:
                can = {True: False, False: True}
            else:
                if r == z3.unknown:
                    self.stats["unknown_forks"] += 1
                r2 = self.query(z3.Not(t), timeout=self.fork_timeout_ms)
                if r2 == z3.unknown:
                    self.stats["unknown_forks"] += 1
                can = {True: True, False: r2 != z3.unsat}
        else:
            r = self.query(z3.Not(t) if first else t, timeout=self.fork_timeout_ms)
            if r == z3.unknown:
                self.stats["unknown_forks"] += 1
            can = {first: True, (not first): r != z3.unsat}
        d = True if can[True] else False
        self.trace.append([d, cand, can[True] and can[False]])
        self.pos += 1
        self._push()
        self.lits.append(t if d else z3.Not(t))
        self.add(t if d else z3.Not(t))
        return d

    def fork(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return self._decide(t)

    def assume(self, t):
        if z3.is_true(t):
            return
        self.add(t)
        if self.pos >= len(self.trace):
            self.feasible_model()

    def enum_int(self, t):
        """fork over every feasible value of an integer term"""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(400):
            if self.pos < len(self.trace):
                v = self.trace[self.pos][1]
            else:
                m = self.feasible_model()
                if m is None:
                    raise Budget("no model for an integer")
                v = m.eval(t, model_completion=True).as_long()
            if self._decide(t == v, v):
                return v
        raise Budget("unbounded integer enumeration")

    def realise(self, x):
        """pick one value (NOT exhaustive; recorded)"""
        import sys as _s

        if self.pos < len(self.trace):
            v = self.trace[self.pos][1]
            self.pos += 1
            self._push()
        else:
            m = self.feasible_model()
            if m is None:
                raise Budget("no model for a value")
            v = model_frac(m, rterm(x))
            self.stats["realised"] += 1
            fr = _s._getframe(2)
            self.realised_at.append("%s:%d" % (fr.f_code.co_filename, fr.f_lineno))
            self.trace.append([True, v, False])
            self.pos += 1
            self._push()
        self.add(rterm(x) == rval(v))
        return v

    # ---- explore
    def explore(self, fn):
        global ENG
        while True:
            self.start_path()
            ENG = self
            try:
                fn()
                self.stats["completed"] += 1
            except PathAbort:
                pass
            finally:
                ENG = None
            self.stats["paths"] += 1
            while self.trace and not self.trace[-1][2]:
                self.trace.pop()
            if not self.trace:
                return
            d = self.trace[-1]
            d[0], d[2] = (not d[0]), False
            if self.stats["paths"] >= self.max_paths:
                raise Budget("path budget")

    # ---- fresh values with contracts
    def fresh(self, hint, sort="real"):
        self.fresh_id += 1
        n = "%s!%d" % (hint, self.fresh_id)
        if sort == "real":
            return SymReal({n: 1.0}, 0.0)
        if sort == "int":
            return SymInt(z3.Int(n))
        return SymBool(z3.Bool(n))

    def recip(self, x):
        n = z3.simplify(x.t, som=True)
        key = ("recip", n.get_id())
        if key in self.defs:
            return self.defs[key][0]
        r = self.fresh("recip")
        self.add(x.t * r.t == 1)
        self.defs[key] = r, n
        return r

    def sqrt(self, x):
        key = ("sqrt", x.t.get_id())
        if key in self.defs:
            return self.defs[key][0]
        if x < 0:
            return float("nan")
        r = self.fresh("sqrt")
        self.add(z3.And(r.t * r.t == x.t, r.t >= 0))
        self.defs[key] = r, x
        return r

    def ufunc(self, name, *args):
        """uninterpreted function (exp, log, pow): only congruence is known"""
        f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        return SymReal(t=f(*[rterm(a) for a in args]))

    def rounded(self, x, n):
        n = int(n)
        f = z3.Function("round%d" % n, z3.RealSort(), z3.RealSort())
        r = f(x.t)
        h = z3.RealVal(str(Fraction(1, 2) / Fraction(10) ** n))
        self.add(z3.And(r - x.t <= h, x.t - r <= h))
        return SymReal(t=r)

    def named(self, x, hint="v"):
        """give a (large) term a name, defined by an equation"""
        if not isinstance(x, SymReal) or x.lin is not None and len(x.lin) <= 1:
            return x
        r = self.fresh(hint)
        self.add(r.t == x.t)
        return r


def model_frac(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("no value for %s" % t)
