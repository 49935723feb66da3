"""Running the real Python functions on symbolic reals under CPython.

The modules of /repo/opensfm are imported unmodified.  During a symbolic run the
names `np`/`numpy`/`math`/`float` in their globals are bound to shims that keep
object dtype where numpy would force float64 and that know symbolic versions of
radians/degrees/norm/inv/det...  Nothing else of the code changes; what the shim
drops: dtypes, array memory layout, floating-point rounding.
"""
from __future__ import annotations

import contextlib
import importlib
import importlib.machinery
import importlib.util
import math
import sys
import types

import numpy as np

from . import expr as X
from . import paths, pm

np.seterr(all="ignore")
EXTS = ["pybundle", "pydense", "pyfeatures", "pygeo", "pygeometry", "pymap", "pyrobust", "pysfm"]


class _Stub(types.ModuleType):
    """stands for an extension module that cannot be built here"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        t = type(name, (object,), {"__module__": self.__name__})
        setattr(self, name, t)
        return t


def load(*names, stubs=True):
    """import opensfm.<name> from /repo without its C++ extensions"""
    vs = "/opt/venv/lib/python3.12/site-packages"
    if vs not in sys.path:
        sys.path.append(vs)
    sys.dont_write_bytecode = True
    if "opensfm" not in sys.modules:
        if "/repo" not in sys.path:
            sys.path.insert(0, "/repo")
        spec = importlib.machinery.PathFinder.find_spec("opensfm", ["/repo"])
        pkg = importlib.util.module_from_spec(spec)
        sys.modules["opensfm"] = pkg
        if stubs:
            for e in EXTS:
                m = _Stub("opensfm." + e)
                sys.modules["opensfm." + e] = m
                setattr(pkg, e, m)
    out = [importlib.import_module("opensfm." + n) for n in names]
    return out[0] if len(out) == 1 else out


def has_sym(x):
    if isinstance(x, (X.E, X.B)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def _num(v):
    return v


class Linalg:
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        return getattr(np.linalg, n)

    def norm(self, x, ord=None, axis=None, keepdims=False):
        a = np.asarray(x)
        if a.dtype != object:
            return np.linalg.norm(x, ord, axis, keepdims)
        if ord not in (None, 2, "fro"):
            raise NotImplementedError("norm ord")
        s = (a * a).sum(axis=axis, keepdims=keepdims) if axis is not None or keepdims else (a * a).sum()
        if isinstance(s, np.ndarray):
            return _map(pm.sqrt, s)
        return X.sqrt(X.lift(s))

    def det(self, x):
        a = np.asarray(x)
        if a.dtype != object:
            return np.linalg.det(x)
        return _det(a)

    def inv(self, x):
        a = np.asarray(x)
        if a.dtype != object:
            return np.linalg.inv(x)
        n = a.shape[0]
        if n >= 2 and all(_isz(a[n - 1, j]) for j in range(n - 1)) and _is1(a[n - 1, n - 1]):
            A = self.inv(a[: n - 1, : n - 1])
            t = -A.dot(a[: n - 1, n - 1])
            r = np.empty((n, n), dtype=object)
            r[: n - 1, : n - 1] = A
            r[: n - 1, n - 1] = t
            r[n - 1, :] = 0.0
            r[n - 1, n - 1] = 1.0
            return r
        d = _det(a)
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                m = np.delete(np.delete(a, i, 0), j, 1)
                c = _det(m) if n > 1 else 1.0
                r[j, i] = (c if (i + j) % 2 == 0 else -c) / d
        return r

    def solve(self, A, b):
        if not (has_sym(A) or has_sym(b)):
            return np.linalg.solve(A, b)
        return self.inv(np.asarray(A, dtype=object)).dot(b)


def _isz(v):
    return v is X.ZERO or (not isinstance(v, X.E) and v == 0)


def _is1(v):
    return v is X.ONE or (not isinstance(v, X.E) and v == 1)


def _det(a):
    n = a.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    r = 0.0
    for j in range(n):
        if _isz(a[0, j]):
            continue
        m = np.delete(a[1:], j, 1)
        t = a[0, j] * _det(m)
        r = r + t if j % 2 == 0 else r - t
    return r


def _map(f, a):
    a = np.asarray(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(X.lift(a[i]))
    return out if a.shape else out[()]


def _un(f, real):
    def g(x, *a, **k):
        if isinstance(x, X.E):
            return f(x)
        if has_sym(x):
            return _map(f, x)
        return real(x, *a, **k)

    return g


def _objlike(dtype):
    return dtype is None or dtype in (float, np.float64, np.float32, object, "float64", "float32", "float", SymFloat) or dtype == np.float64


class _MF(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, X.E))

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=_MF):
    def __new__(cls, x=0.0):
        if isinstance(x, X.E):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return x.reshape(-1)[0]
        return float(x)


class NP:
    linalg = Linalg()

    def __getattr__(self, n):
        return getattr(np, n)

    def array(self, x, dtype=None, copy=True, **k):
        if has_sym(x) and _objlike(dtype):
            a = np.array(x, dtype=object, **k)
            return a
        a = np.array(x, dtype=float if dtype is SymFloat else dtype, **k)
        if a.dtype.kind == "f":
            return a.astype(object)
        return a

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and x.dtype == object and _objlike(dtype):
            return x
        return self.array(x, dtype)

    asanyarray = asarray

    def ascontiguousarray(self, x, dtype=None):
        return self.asarray(x, dtype)

    def _mk(self, f, shape, dtype, *a):
        r = f(shape, *a)
        if _objlike(dtype):
            return r.astype(object)
        return r.astype(dtype)

    def zeros(self, shape, dtype=None, **k):
        return self._mk(np.zeros, shape, dtype)

    def ones(self, shape, dtype=None, **k):
        return self._mk(np.ones, shape, dtype)

    def empty(self, shape, dtype=None, **k):
        return self._mk(np.zeros, shape, dtype)

    def eye(self, n, m=None, dtype=None, **k):
        return self._mk(lambda s: np.eye(n, m), None, dtype)

    def identity(self, n, dtype=None, **k):
        return self._mk(lambda s: np.identity(n), None, dtype)

    def full(self, shape, v, dtype=None):
        return np.full(shape, v, dtype=object) if _objlike(dtype) else np.full(shape, v, dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self.zeros(np.shape(a), dtype or (None if np.asarray(a).dtype.kind in "fO" else np.asarray(a).dtype))

    def ones_like(self, a, dtype=None, **k):
        return self.ones(np.shape(a), dtype or (None if np.asarray(a).dtype.kind in "fO" else np.asarray(a).dtype))

    empty_like = zeros_like

    radians = staticmethod(_un(lambda v: v * X.PI / 180, np.radians))
    deg2rad = radians
    degrees = staticmethod(_un(lambda v: v * 180 / X.PI, np.degrees))
    rad2deg = degrees
    sin = staticmethod(_un(X.sin, np.sin))
    cos = staticmethod(_un(X.cos, np.cos))
    tan = staticmethod(_un(lambda v: X.div(X.sin(v), X.cos(v)), np.tan))
    _sqrt = staticmethod(_un(X.sqrt, np.sqrt))

    def sqrt(self, x, out=None):
        r = self._sqrt(x)
        if out is None:
            return r
        out[...] = r
        return out

    arccos = staticmethod(_un(X.acos, np.arccos))
    arcsin = staticmethod(_un(X.asin, np.arcsin))
    arctan = staticmethod(_un(lambda v: X.atan2(v, X.ONE), np.arctan))
    exp = staticmethod(_un(lambda v: X.fn("exp", v), np.exp))
    log = staticmethod(_un(lambda v: X.fn("log", v), np.log))
    abs = staticmethod(_un(abs, np.abs))
    absolute = abs
    fabs = abs
    square = staticmethod(_un(lambda v: v * v, np.square))

    def negative(self, x, out=None):
        if out is None:
            return -x if has_sym(x) else np.negative(x)
        out[...] = -x
        return out

    def arctan2(self, y, x):
        if isinstance(y, X.E) or isinstance(x, X.E):
            if isinstance(y, np.ndarray) or isinstance(x, np.ndarray):
                yb, xb = np.broadcast_arrays(np.asarray(y, dtype=object), np.asarray(x, dtype=object))
                out = np.empty(yb.shape, dtype=object)
                for i in np.ndindex(yb.shape):
                    out[i] = pm.atan2(yb[i], xb[i])
                return out
            return pm.atan2(y, x)
        if has_sym(y) or has_sym(x):
            yb, xb = np.broadcast_arrays(np.asarray(y, dtype=object), np.asarray(x, dtype=object))
            out = np.empty(yb.shape, dtype=object)
            for i in np.ndindex(yb.shape):
                out[i] = pm.atan2(yb[i], xb[i])
            return out
        return np.arctan2(y, x)

    def hypot(self, x, y):
        return self.sqrt(x * x + y * y)

    def isnan(self, x):
        if isinstance(x, X.E):
            return x is X.NAN
        a = np.asarray(x)
        if a.dtype == object:
            return np.vectorize(lambda v: v is X.NAN or (isinstance(v, float) and v != v), otypes=[bool])(a)
        return np.isnan(x)

    def isinf(self, x):
        return x is X.INF if isinstance(x, X.E) else np.isinf(x)

    def isfinite(self, x):
        return ~self.isnan(x) if not isinstance(x, X.E) else x is not X.NAN

    def clip(self, x, lo, hi, **k):
        def one(v):
            v = X.lift(v)
            if v < lo:
                return X.lift(lo)
            if v > hi:
                return X.lift(hi)
            return v

        if isinstance(x, X.E):
            return one(x)
        if has_sym(x):
            return _map(one, x)
        return np.clip(x, lo, hi, **k)

    def dot(self, a, b):
        if isinstance(a, X.E) or isinstance(b, X.E):
            return a * b
        return np.dot(a, b)

    def cross(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            if a.shape == (3,) and b.shape == (3,):
                return np.array(pm.cross(list(a), list(b)), dtype=object)
        return np.cross(a, b, **k)

    def trace(self, a, **k):
        if has_sym(a):
            a = np.asarray(a, dtype=object)
            r = a[0, 0]
            for i in range(1, min(a.shape)):
                r = r + a[i, i]
            return r
        return np.trace(a, **k)

    def matrix(self, x, *a, **k):
        return self.array(x)

    float64 = SymFloat

    def maximum(self, a, b):
        if has_sym(a) or has_sym(b):
            if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
                a, b = X.lift(a), X.lift(b)
                return a if a >= b else b
        return np.maximum(a, b)

    def minimum(self, a, b):
        if has_sym(a) or has_sym(b):
            if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
                a, b = X.lift(a), X.lift(b)
                return a if a <= b else b
        return np.minimum(a, b)

    def sign(self, x):
        if isinstance(x, X.E):
            return X.ONE if x > 0 else (X.MONE if x < 0 else X.ZERO)
        return np.sign(x)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        """contract: exact equality (an over-strict reading used only for branches)"""
        if has_sym(a) or has_sym(b):
            a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            for i in np.ndindex(a.shape):
                d = abs(X.lift(a[i]) - X.lift(b[i]))
                if not d <= atol + rtol * abs(X.lift(b[i])):
                    return False
            return True
        return np.allclose(a, b, rtol, atol, **k)


class MATH:
    def __getattr__(self, n):
        return getattr(math, n)

    @staticmethod
    def _w(f, g):
        return lambda *a: f(*[X.lift(v) for v in a]) if any(isinstance(v, X.E) for v in a) else g(*a)


for _n, _f in dict(sin=X.sin, cos=X.cos, tan=lambda v: X.div(X.sin(v), X.cos(v)), sqrt=X.sqrt, atan2=X.atan2, acos=X.acos, asin=X.asin,
                   atan=lambda v: X.atan2(v, X.ONE), radians=lambda v: v * X.PI / 180, degrees=lambda v: v * 180 / X.PI, fabs=abs,
                   exp=lambda v: X.fn("exp", v), log=lambda v: X.fn("log", v), floor=lambda v: X.fn("floor", v),
                   isnan=lambda v: v is X.NAN, isinf=lambda v: v is X.INF, isfinite=lambda v: v is not X.NAN and v is not X.INF,
                   pow=lambda a, b: X.power(a, b), hypot=lambda a, b: X.sqrt(a * a + b * b)).items():
    setattr(MATH, _n, staticmethod(MATH._w(_f, getattr(math, _n))))

NPS = NP()
MATHS = MATH()


@contextlib.contextmanager
def symbolic_numpy():
    saved = []
    for name, m in list(sys.modules.items()):
        if m is None or not (name == "opensfm" or name.startswith("opensfm.")):
            continue
        d = m.__dict__
        for k, v in list(d.items()):
            if v is np:
                saved.append((d, k, v))
                d[k] = NPS
            elif v is math:
                saved.append((d, k, v))
                d[k] = MATHS
        if "float" not in d:
            saved.append((d, "float", None))
            d["float"] = SymFloat
    try:
        yield
    finally:
        for d, k, v in saved:
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
