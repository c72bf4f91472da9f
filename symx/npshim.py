"""numpy/scipy as seen by the pydsge modules during symbolic execution.

Only the *globals of the pydsge modules* are redirected (numpy itself is left
alone), and only while an exploration is running.  A redirected function keeps
numpy's meaning; the differences are

  * float arrays are created with object dtype, so that they can hold terms;
    `empty` is filled with arbitrary (fresh) values: nothing may depend on them;
  * predicates and `where` work elementwise on terms;
  * LAPACK-backed functions on symbolic arguments are replaced by their contract
    (inv: X with M X = X M = I); on concrete arguments they are simply called.
"""

import sys
import types

import numpy as np
import numpy.linalg as nl
import scipy.linalg as sl

from . import core
from .core import Sym, SymBool, SymReal, SymInt, Unsupported, mkbool, bterm, rterm
import z3


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, Sym) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    if type(x).__module__.startswith("pandas") and hasattr(x, "to_numpy"):
        return has_sym(x.to_numpy())
    return False


def concretise(x):
    """object arrays that hold only numbers become float arrays again"""
    if isinstance(x, np.ndarray) and x.dtype == object and not has_sym(x):
        try:
            return np.asarray(x).astype(float)
        except (TypeError, ValueError):
            return x
    if type(x) in (list, tuple):
        return type(x)(concretise(e) for e in x)
    return x


class SymArray(np.ndarray):
    __array_priority__ = 100

    def astype(self, dtype, *a, **k):
        if self.dtype == object and has_sym(self):
            try:
                kind = np.dtype(dtype).kind
            except TypeError:
                kind = "O"
            if kind in "fcO":
                return self.copy()
        return super().astype(dtype, *a, **k)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr.item()
        return arr.view(SymArray) if arr.dtype == object else np.asarray(arr)

    def _c(self, o, f):
        if self.dtype != object:
            return f(np.asarray(self), o)
        r = f(np.asarray(self), np.asarray(o) if isinstance(o, np.ndarray) else o, dtype=object)
        return r.view(SymArray) if isinstance(r, np.ndarray) else r

    def __lt__(self, o):
        return self._c(o, np.less)

    def __le__(self, o):
        return self._c(o, np.less_equal)

    def __gt__(self, o):
        return self._c(o, np.greater)

    def __ge__(self, o):
        return self._c(o, np.greater_equal)

    def __eq__(self, o):
        return self._c(o, np.equal)

    def __ne__(self, o):
        return self._c(o, np.not_equal)

    __hash__ = None

    @staticmethod
    def _ix(i):
        if isinstance(i, np.ndarray) and i.dtype == object and i.size and all(isinstance(e, (bool, np.bool_, SymBool)) for e in i.flat):
            return np.array([bool(e) for e in i.flat], dtype=bool).reshape(i.shape)
        return i

    def __getitem__(self, i):
        i = tuple(self._ix(e) for e in i) if isinstance(i, tuple) else self._ix(i)
        return super().__getitem__(i)

    def __setitem__(self, i, v):
        i = tuple(self._ix(e) for e in i) if isinstance(i, tuple) else self._ix(i)
        super().__setitem__(i, v)

    def round(self, *a, **k):
        return s_round(self, *a, **k)

    def any(self, *a, **k):
        return np.asarray(self).any(*a, **k) if a or k else bool(_reduce_or(self))

    def all(self, *a, **k):
        return np.asarray(self).all(*a, **k) if a or k else bool(_reduce_and(self))

    def std(self, *a, **k):
        return np.sqrt(self.var(*a, **k))


def _reduce_or(x):
    ts = []
    for e in np.asarray(x).flat:
        if isinstance(e, Sym):
            t = bterm(e != 0 if not isinstance(e, SymBool) else e)
            if t is not None:
                ts.append(t)
        elif e:
            return True
    return mkbool(z3.Or(ts)) if ts else False


def _reduce_and(x):
    ts = []
    for e in np.asarray(x).flat:
        if isinstance(e, Sym):
            t = bterm(e != 0 if not isinstance(e, SymBool) else e)
            if t is not None:
                ts.append(t)
        elif not e:
            return False
    return mkbool(z3.And(ts)) if ts else True


def wrap(a):
    return a.view(SymArray) if isinstance(a, np.ndarray) and a.dtype == object else a


def obj(a):
    a = np.asarray(a)
    return a.astype(object).view(SymArray)


def _floatish(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind in "fc"
    except TypeError:
        return False


def active():
    return core.ENG is not None


# ------------------------------------------------------------------ creation
def _creator(name):
    real = getattr(np, name)

    def f(*a, **k):
        r = real(*a, **k)
        if active() and r.dtype.kind in "fc":
            r = obj(r)
        return r

    f.__name__ = name
    return f


def s_empty(*a, **k):
    r = np.empty(*a, **k)
    if active() and r.dtype.kind in "fc":
        return _havoc(r.shape)
    return wrap(r)


def s_empty_like(x, *a, **k):
    r = np.empty_like(np.asarray(x), *a, **k)
    if active() and r.dtype.kind in "fcO":
        return _havoc(r.shape)
    return r


def _havoc(shape):
    r = np.empty(shape, dtype=object)
    for i in range(r.size):
        r.flat[i] = core.ENG.fresh("garbage")
    return r.view(SymArray)


def _like(name):
    real = getattr(np, name)

    def f(x, *a, **k):
        r = real(np.asarray(x), *a, **k)
        if active() and r.dtype.kind in "fc":
            r = obj(r)
        elif r.dtype == object and not a and not k.get("dtype"):
            r = obj(np.zeros(r.shape) if name == "zeros_like" else np.ones(r.shape) if name == "ones_like" else r)
        return r

    return f


def _arrayish(name, copies=False):
    real = getattr(np, name)

    def f(x, *a, **k):
        if active() and has_sym(x):
            if a and _floatish(a[0]):
                a = (object,) + a[1:]
            if _floatish(k.get("dtype", object)) and k.get("dtype") is not None:
                k["dtype"] = object
            return wrap(real(x, *a, **k))
        r = real(x, *a, **k)
        if copies and active() and r.dtype.kind in "fc":
            r = obj(r)  # a new array: terms may be written into it
        return r

    f.__name__ = name
    return f


# ------------------------------------------------------------------ predicates
def _pred(name):
    real = getattr(np, name)

    def f(x, *a, **k):
        if type(x).__module__.startswith("pandas"):
            if not has_sym(x):
                return real(x, *a, **k)
            x = x.to_numpy()
        if isinstance(x, Sym):
            return name == "isfinite"
        y = np.asarray(x)
        if y.dtype == object:
            return np.array([(name == "isfinite") if isinstance(e, Sym) else bool(real(float(e))) for e in y.flat], dtype=bool).reshape(y.shape)
        return real(x, *a, **k)

    return f


def ite(c, a, b):
    t = bterm(c)
    if t is None:
        return a if c else b
    t = z3.simplify(t)
    if z3.is_true(t):
        return a
    if z3.is_false(t):
        return b
    for v in (a, b):
        if not isinstance(v, Sym) and not core._finite(v):
            return a if core.ENG.fork(t) else b
    return SymReal(t=z3.If(t, rterm(a), rterm(b)))


def s_where(c, *ab):
    if not ab or not (has_sym(c) or has_sym(ab[0]) or has_sym(ab[1])):
        return np.where(c, *ab)
    c, a, b = np.broadcast_arrays(np.asarray(c), np.asarray(ab[0]), np.asarray(ab[1]))
    r = np.empty(c.shape, dtype=object)
    for i in range(r.size):
        r.flat[i] = ite(c.flat[i], a.flat[i], b.flat[i])
    return r.view(SymArray)


def _minmax(name):
    real = getattr(np, name)

    def f(a, b, *r, **k):
        if not (has_sym(a) or has_sym(b)):
            return real(a, b, *r, **k)
        a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
        out = np.empty(a.shape, dtype=object)
        for i in range(out.size):
            x, y = a.flat[i], b.flat[i]
            out.flat[i] = ite(x >= y if name in ("maximum", "fmax") else x <= y, x, y)
        return out.view(SymArray) if out.shape else out.item()

    return f


def _anyall(name):
    real = getattr(np, name)
    red = _reduce_or if name == "any" else _reduce_and

    def f(x, *a, **k):
        if not a and not k and has_sym(x):
            return bool(red(np.array(x, dtype=object)))
        return real(x, *a, **k)

    return f


def s_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return np.isclose(concretise(a), concretise(b), rtol, atol, equal_nan)
    a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
    r = np.empty(a.shape, dtype=object)
    for i in range(r.size):
        x, y = a.flat[i], b.flat[i]
        if any(not isinstance(v, Sym) and not core._finite(v) for v in (x, y)):
            r.flat[i] = not isinstance(x, Sym) and not isinstance(y, Sym) and bool(np.isclose(float(x), float(y), equal_nan=equal_nan))
        else:
            r.flat[i] = abs(x - y) <= atol + rtol * abs(y)
    return r.view(SymArray) if r.shape else r.item()


def s_allclose(a, b, *r, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.allclose(concretise(a), concretise(b), *r, **k)
    return bool(_reduce_and(np.array(s_isclose(a, b, *r, **k), dtype=object)))


def s_array_equal(a, b, *r, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.array_equal(a, b, *r, **k)
    if np.shape(a) != np.shape(b):
        return False
    return bool(_reduce_and(obj(a) == obj(b)))


def s_round(x, decimals=0, *a, **k):
    if not has_sym(x):
        return np.round(concretise(x), decimals)
    y = np.asarray(x)
    r = np.empty(y.shape, dtype=object)
    for i in range(r.size):
        e = y.flat[i]
        r.flat[i] = e.round(decimals) if isinstance(e, Sym) else round(float(e), decimals)
    return r.view(SymArray) if r.shape else r.item()


def _elementwise(name, meth):
    real = getattr(np, name)

    def f(x, *a, **k):
        if not has_sym(x):
            y = concretise(x)
            return real(y, *a, **k)
        if isinstance(x, Sym):
            return meth(x)
        y = np.asarray(x)
        r = np.empty(y.shape, dtype=object)
        for i in range(r.size):
            e = y.flat[i]
            r.flat[i] = meth(e) if isinstance(e, Sym) else real(float(e))
        return r.view(SymArray)

    return f


# ------------------------------------------------------------------ linear algebra
def _mat(x):
    return np.asarray(x)


def s_inv(M, *a, **k):
    if not has_sym(M):
        return obj(nl.inv(concretise(np.asarray(M)))) if active() else nl.inv(M)
    M = _mat(M)
    n = M.shape[0]
    eng = core.ENG
    if eng.havoc:
        return _havoc(M.shape)
    key = ("inv", tuple(rterm(e).get_id() if isinstance(e, Sym) else float(e) for e in M.flat))
    if key in eng.defs:
        return eng.defs[key][0]
    X = np.empty((n, n), dtype=object)
    for i in range(X.size):
        X.flat[i] = eng.fresh("inv")
    for P in (M @ X, X @ M):
        for i in range(n):
            for j in range(n):
                eng.add(rterm(P[i, j]) == (1 if i == j else 0))
    X = X.view(SymArray)
    eng.defs[key] = X, M
    return X


def _concrete_only(real, havoc=None):
    def f(*a, **k):
        if active():
            if any(has_sym(e) for e in list(a) + list(k.values())):
                if havoc and core.ENG.havoc:
                    return havoc(*a, **k)
                raise Unsupported("%s on symbolic values" % getattr(real, "__name__", real))
            a = [concretise(e) for e in a]
            k = {n: concretise(e) for n, e in k.items()}
        return real(*a, **k)

    f.__name__ = getattr(real, "__name__", "f")
    f.__wrapped__ = real
    return f


def s_pinv(M, *a, **k):
    if has_sym(M):
        raise Unsupported("pinv of a symbolic matrix")
    return nl.pinv(concretise(np.asarray(M)), *a, **k)


def h_rq(M, *a, **k):
    n, m = np.shape(M)
    return _havoc((n, m)), _havoc((m, m))


def h_klein(A, B, nstates, *a, **k):
    n = np.shape(A)[1]
    return _havoc((n - nstates, nstates)), _havoc((nstates, nstates))


def h_speed_kills(A, B, dimp, dimq, *a, **k):
    return _havoc((dimp, dimq)), _havoc((dimq, dimq))


def s_lyapunov(A, Q, *a, **k):
    """X = A X A' + Q"""
    if not has_sym(A) and not has_sym(Q):
        return sl.solve_discrete_lyapunov(concretise(A), concretise(Q), *a, **k)
    A, Q = np.asarray(A), np.asarray(Q)
    n = A.shape[0]
    if core.ENG.havoc:
        return _havoc((n, n))
    if has_sym(A):
        raise Unsupported("lyapunov equation with symbolic transition")
    # linear in Q: the solution operator is applied to the symbolic right hand side
    Ac = np.asarray(concretise(A), dtype=float)
    op = nl.inv(np.eye(n * n) - np.kron(Ac, Ac))
    return (op @ Q.reshape(-1)).reshape(n, n).view(SymArray)


def s_cond(M, *a, **k):
    if has_sym(M):
        return 1.0  # only used for a warning
    return nl.cond(concretise(np.asarray(M)), *a, **k)


def _einsum(*a, **k):
    k.pop("optimize", None)
    return np.einsum(*a, **k)


def _passthrough_obj(name):
    real = getattr(np, name)

    def f(x, *a, **k):
        y = x if has_sym(x) else concretise(x)
        return wrap(real(y, *a, **k))

    return f


NP = {n: _creator(n) for n in ("zeros", "ones", "full", "eye", "identity", "linspace")}
NP.update({n: _like(n) for n in ("zeros_like", "ones_like", "full_like")})
NP.update(empty=s_empty, empty_like=s_empty_like)
NP.update({n: _arrayish(n) for n in ("asarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "asfortranarray")})
NP.update({n: _arrayish(n, True) for n in ("array", "copy", "tile", "repeat")})
NP.update({n: _pred(n) for n in ("isnan", "isinf", "isfinite")})
NP.update(isclose=s_isclose, allclose=s_allclose, array_equal=s_array_equal, where=s_where, round=s_round, around=s_round, einsum=_einsum)
NP.update({n: _minmax(n) for n in ("maximum", "minimum", "fmax", "fmin")})
NP.update({n: _anyall(n) for n in ("any", "all")})
NP.update(sqrt=_elementwise("sqrt", lambda e: e.sqrt()), exp=_elementwise("exp", lambda e: e.exp()), log=_elementwise("log", lambda e: e.log()), abs=_elementwise("abs", abs), absolute=_elementwise("absolute", abs))
NP.update({n: _passthrough_obj(n) for n in ("sum", "mean", "cumsum", "prod")})
NL = dict(inv=s_inv, pinv=s_pinv, cond=s_cond)
for _n in ("det", "solve", "eig", "eigvals", "svd", "qr", "matrix_rank", "cholesky", "norm"):
    NL[_n] = _concrete_only(getattr(nl, _n))
SL = dict(inv=s_inv, pinv=s_pinv)
SL["rq"] = _concrete_only(sl.rq, h_rq)
SL["solve_discrete_lyapunov"] = s_lyapunov
for _n in ("qr", "solve", "qz", "ordqz", "eig", "svd", "det", "lu", "expm"):
    SL[_n] = _concrete_only(getattr(sl, _n))


class Proxy(types.ModuleType):
    def __init__(self, real, table, subs=None):
        super().__init__(real.__name__)
        self.__dict__["_real"], self.__dict__["_table"], self.__dict__["_subs"] = real, table, subs or {}

    def __getattr__(self, n):
        if n in self._subs:
            return self._subs[n]
        if n in self._table and active():
            return self._table[n]
        return getattr(self._real, n)

    def __reduce__(self):
        import importlib

        return importlib.import_module, (self._real.__name__,)


PNL = Proxy(nl, NL)
PSL = Proxy(sl, SL)
PNP = Proxy(np, NP, {"linalg": PNL})


def _switch(real, sym):
    def f(*a, **k):
        return sym(*a, **k) if active() else real(*a, **k)

    f.__name__ = getattr(real, "__name__", "f")
    return f


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, *a):
        return a[0] if a and isinstance(a[0], (SymReal, SymInt)) and active() else float(*a)


class symfloat(metaclass=_FloatMeta):
    """the builtin `float` as seen by pydsge.gensys: float(x) of a term is the term"""

    dtype = np.dtype(float)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, core.SymStr))

    def __subclasscheck__(cls, c):
        return issubclass(c, str)

    def __call__(cls, *a, **k):
        return a[0] if a and isinstance(a[0], core.SymStr) else str(*a, **k)


class symstr(metaclass=_StrMeta):
    """the builtin `str` as seen by pydsge.clsmethods"""

    join = str.join


class _OsPath(types.ModuleType):
    """os.path on symbolic strings (posix)"""

    def __init__(self):
        super().__init__("posixpath")

    def __getattr__(self, n):
        import os

        return getattr(os.path, n)

    @staticmethod
    def isabs(p):
        import os

        return p.startswith("/") if isinstance(p, core.SymStr) else os.path.isabs(p)

    @staticmethod
    def splitext(p):
        import os

        if not isinstance(p, core.SymStr):
            return os.path.splitext(p)
        sep, dot = p.rfind("/"), p.rfind(".")
        if dot > sep and any(p[i: i + 1] != "." for i in range(sep + 1, dot)):
            return p[:dot], p[dot:]
        return p, ""

    @staticmethod
    def split(p):
        import os

        if not isinstance(p, core.SymStr):
            return os.path.split(p)
        i = p.rfind("/") + 1
        head, tail = p[:i], p[i:]
        if isinstance(head, core.SymStr) and any(c != "/" for c in head):
            while head[-1:] == "/":
                head = head[:-1]
        return head, tail

    @staticmethod
    def dirname(p):
        return _OsPath.split(p)[0]

    @staticmethod
    def basename(p):
        return _OsPath.split(p)[1]

    @staticmethod
    def join(a, *ps):
        import os

        if not any(isinstance(p, core.SymStr) for p in (a,) + ps):
            return os.path.join(a, *ps)
        r = a
        for p in ps:
            if p[:1] == "/":
                r = p
            elif r[-1:] == "" or r[-1:] == "/":
                r = r + p
            else:
                r = r + "/" + p
        return r


OSPATH = _OsPath()


class Pickled:
    """stands for the bytes of a pickled object: a private copy of the object; equal iff the objects are"""

    def __init__(self, o):
        from copy import deepcopy

        self.o = deepcopy(o)

    def __hash__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, Pickled) and deep_eq(self.o, other.o)


def deep_eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        return all(deep_eq(x, y) for x, y in zip(a.flat, b.flat))
    if isinstance(a, Sym) or isinstance(b, Sym):
        return bool(a == b)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(deep_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a and b != b:
        return True
    return bool(a == b)


def s_dumps(o, *a, **k):
    return Pickled(o)


def s_loads(tok, *a, **k):
    from copy import deepcopy

    if isinstance(tok, np.ndarray) and tok.ndim == 0 and isinstance(tok.item(), Pickled):
        tok = tok.item()
    if isinstance(tok, Pickled):
        return deepcopy(tok.o)
    import dill

    return dill.loads(tok)


# modules of other packages which are executed on terms as well
ALSO = ("econsieve.kalman_filter", "emcwrap.sampler")


def install(prefix="pydsge"):
    """redirect the globals of the imported pydsge modules"""
    import os

    byid = {id(np): PNP, id(nl): PNL, id(sl): PSL, id(os): Proxy(os, {}, {"path": OSPATH}), id(os.path): OSPATH}
    import cloudpickle
    import dill
    import pickle

    PK = dict(dumps=s_dumps, loads=s_loads)
    for pk in (cloudpickle, dill, pickle):
        byid[id(pk)] = Proxy(pk, PK)
    fn = {}
    for mod, tab in ((np, NP), (nl, NL), (sl, SL)):
        for n, s in tab.items():
            fn[id(getattr(mod, n))] = _switch(getattr(mod, n), s)
    for n in ("isabs", "splitext", "split", "dirname", "basename", "join"):
        fn[id(getattr(os.path, n))] = getattr(OSPATH, n)
    import grgrlib

    for n in ("klein", "speed_kills", "fast0"):
        if hasattr(grgrlib, n):
            r = getattr(grgrlib, n)
            fn[id(r)] = _concrete_only(r, dict(klein=h_klein, speed_kills=h_speed_kills).get(n))
    fn[id(grgrlib.fast0)] = _switch(grgrlib.fast0, s_fast0(grgrlib.fast0))
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == prefix or name.startswith(prefix + ".") or name in ALSO):
            continue
        for k, v in list(vars(mod).items()):
            if id(v) in byid:
                setattr(mod, k, byid[id(v)])
            elif id(v) in fn:
                setattr(mod, k, fn[id(v)])
        if name.rsplit(".", 1)[-1] in ("gensys", "engine", "tools", "mpile", "stats", "filtering", "estimation"):
            mod.float = symfloat
        if name == "pydsge.clsmethods":
            mod.str = symstr
    import sympy.utilities.lambdify  # noqa: F401  (the package attribute of this name is the function)

    sul = sys.modules["sympy.utilities.lambdify"]
    if not hasattr(sul, "_symx"):
        sul._symx = sul.lambdify
        sul.lambdify = lambda *a, **k: lambdified(sul._symx(*a, **k))


def s_fast0(real):
    def f(A, mode=-1, tol=1e-08):
        if not has_sym(A):
            return real(concretise(np.asarray(A)), mode, tol)
        A = np.asarray(A)
        # entries which are symbolic terms are taken as non-zero (a generic value)
        B = np.array([1.0 if isinstance(e, Sym) else float(e) for e in A.flat]).reshape(A.shape)
        return real(B, mode, tol)

    return f


def lambdified(fun):
    """make a sympy-lambdified function build object arrays (its `array` is numpy's)"""
    g = getattr(fun, "__globals__", None)
    if g and "array" in g:
        g["array"] = _switch(np.array, NP["array"])
        for n in ("sqrt", "exp", "log"):
            if n in g and g[n] is getattr(np, n, None):
                g[n] = _switch(getattr(np, n), NP[n])
        if "numpy" in g:
            g["numpy"] = PNP
    return fun
