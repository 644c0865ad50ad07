"""numpy entry points as seen by the code under test."""
import sys

import numpy as np

from . import terms as T
from . import values as V
from .values import SymBool, SymReal, lift

ACTIVE = {"on": False}
RANDOM = {"stub": None}
PKG = "skillmodels"

_orig = {}


def _from_pkg(depth=2):
    f = sys._getframe(depth)
    return f.f_globals.get("__name__", "").startswith(PKG)


def _is_float(d):
    return d is not None and (d in (float, np.float64, "float", "float64")
                              or d is FloatShim or d == np.dtype(float))


def _floaty(dtype):
    if dtype is None:
        return True
    if dtype is FloatShim:
        return True
    try:
        return np.issubdtype(np.dtype(dtype), np.floating) or np.dtype(dtype) == object
    except TypeError:
        return False


def _filled(shape, val):
    out = np.empty(shape, dtype=object)
    out[...] = None
    flat = out.reshape(-1)
    for i in range(flat.size):
        flat[i] = val
    return out


def install():
    if _orig:
        return
    ns = np

    def wrap(name, fun):
        _orig[name] = getattr(ns, name)
        fun.__name__ = name
        setattr(ns, name, fun)

    def zeros(shape, dtype=None, *a, **k):
        if ACTIVE["on"] and _from_pkg() and _floaty(dtype):
            return _filled(shape, lift(0))
        return _orig["zeros"](shape, float if dtype is None else dtype, *a, **k)

    def ones(shape, dtype=None, *a, **k):
        if ACTIVE["on"] and _from_pkg() and _floaty(dtype):
            return _filled(shape, lift(1))
        return _orig["ones"](shape, dtype, *a, **k)

    def empty(shape, dtype=None, *a, **k):
        if ACTIVE["on"] and _from_pkg() and _floaty(dtype):
            return _filled(shape, V.NAN)
        return _orig["empty"](shape, float if dtype is None else dtype, *a, **k)

    def full(shape, fill_value, dtype=None, *a, **k):
        if ACTIVE["on"] and _from_pkg():
            if isinstance(fill_value, (SymReal, float, np.floating)) and _floaty(dtype):
                return _filled(shape, lift(fill_value))
        return _orig["full"](shape, fill_value, dtype, *a, **k)

    def zeros_like(x, dtype=None, *a, **k):
        if ACTIVE["on"] and _from_pkg() and _floaty(dtype) and _floaty(np.asarray(x).dtype):
            return _filled(np.shape(x), lift(0))
        return _orig["zeros_like"](x, dtype, *a, **k)

    def ones_like(x, dtype=None, *a, **k):
        if ACTIVE["on"] and _from_pkg() and _floaty(dtype) and _floaty(np.asarray(x).dtype):
            return _filled(np.shape(x), lift(1))
        return _orig["ones_like"](x, dtype, *a, **k)

    def empty_like(x, dtype=None, *a, **k):
        if ACTIVE["on"] and _from_pkg() and _floaty(dtype) and _floaty(np.asarray(x).dtype):
            return _filled(np.shape(x), V.NAN)
        return _orig["empty_like"](x, dtype, *a, **k)

    def full_like(x, fill_value, dtype=None, *a, **k):
        if ACTIVE["on"] and _from_pkg() and _floaty(dtype) and _floaty(np.asarray(x).dtype):
            return _filled(np.shape(x), lift(fill_value))
        return _orig["full_like"](x, fill_value, dtype, *a, **k)

    def linspace(start, stop, num=50, *a, **k):
        if ACTIVE["on"] and (V.has_sym(start) or V.has_sym(stop)):
            s, e = lift(start), lift(stop)
            out = np.empty(num, dtype=object)
            for i in range(num):
                out[i] = s if num == 1 else s + (e - s) * lift(i) / lift(num - 1)
            return out
        return _orig["linspace"](start, stop, num, *a, **k)

    def _pred(name, f):
        def g(x, *a, **k):
            if ACTIVE["on"] and _from_pkg():
                arr = np.asarray(x)
                if arr.dtype == object:
                    out = np.empty(arr.shape, dtype=object)
                    of, af = out.reshape(-1), arr.reshape(-1)
                    for i in range(af.size):
                        of[i] = f(lift(af[i]))
                    of = of.reshape(arr.shape)
                    if all(b.t in (T.TRUE, T.FALSE) for b in of.reshape(-1)):
                        return np.array([b.t is T.TRUE for b in of.reshape(-1)],
                                        dtype=bool).reshape(arr.shape)[()]
                    return np.array([bool(b) for b in of.reshape(-1)],
                                    dtype=bool).reshape(arr.shape)[()]
            return _orig[name](x, *a, **k)

        return g

    def array(x, *a, **k):
        if ACTIVE["on"] and _from_pkg() and _is_float(
                k.get("dtype", a[0] if a else None)) and V.has_sym(_orig["array"](x)):
            return _orig["array"](x, dtype=object)
        return _orig["array"](x, *a, **k)

    def asarray(x, *a, **k):
        if ACTIVE["on"] and _from_pkg() and _is_float(
                k.get("dtype", a[0] if a else None)) and V.has_sym(_orig["array"](x)):
            return _orig["array"](x, dtype=object)
        return _orig["asarray"](x, *a, **k)

    class Grid:
        """np.mgrid with symbolic end points and a number of points per axis."""

        def __init__(self, orig):
            self.orig = orig

        def __getitem__(self, key):
            ks = key if isinstance(key, tuple) else (key,)
            if not (ACTIVE["on"] and any(V.has_sym(k.start) or V.has_sym(k.stop) for k in ks)):
                return self.orig[key]
            axes = [linspace(k.start, k.stop, int(abs(k.step))) for k in ks]
            out = _orig["array"](np.meshgrid(*axes, indexing="ij"))
            return out if isinstance(key, tuple) else out[0]

        def __getattr__(self, n):
            return getattr(self.orig, n)

    _orig["mgrid"] = np.mgrid
    np.mgrid = Grid(np.mgrid)

    def _stat(name, f):
        def g(x, *a, **k):
            if ACTIVE["on"] and V.has_sym(np.asarray(x, dtype=object)):
                return f(x, *a, **k)
            return _orig[name](x, *a, **k)

        return g

    def corrcoef(x, y=None, rowvar=True):
        from . import pdsym

        return _pairs(pdsym.corr, x, y, rowvar)

    def cov(m, y=None, rowvar=True, bias=False, ddof=None):
        from . import pdsym

        d = (0 if bias else 1) if ddof is None else ddof
        return _pairs(lambda a, b: pdsym.cov(a, b, d), m, y, rowvar)

    def _pairs(f, x, y, rowvar):
        m = np.atleast_2d(np.asarray(x, dtype=object))
        if not rowvar and m.shape[0] != 1:
            m = m.T
        if y is not None:
            m = np.vstack([m, np.atleast_2d(np.asarray(y, dtype=object))])
        n = len(m)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = f(m[i], m[j])
        return out if n > 1 else out[0, 0]

    wrap("corrcoef", _stat("corrcoef", corrcoef))
    wrap("cov", _stat("cov", cov))
    for n, f in dict(zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like,
                     ones_like=ones_like, empty_like=empty_like, full_like=full_like,
                     linspace=linspace, array=array, asarray=asarray).items():
        wrap(n, f)
    install_linalg()
    wrap("isnan", _pred("isnan", lambda s: SymBool(s.nan)))
    wrap("isfinite", _pred("isfinite", lambda s: SymBool(T.not_(s.nan))))


def install_linalg():
    """numpy.linalg on symbolic arrays goes through the rules for the jax primitives."""
    import jax.numpy as jnp

    def make(name, orig):
        def g(*a, **k):
            if ACTIVE["on"] and any(V.has_sym(np.asarray(x, dtype=object)) for x in a[:2]):
                out = getattr(jnp.linalg, name)(*[jnp.array(x) for x in a], **k)
                return tuple(np.array(o) for o in out) if isinstance(out, tuple) else np.array(out)
            return orig(*a, **k)

        g.__name__ = name
        return g

    for name in ("cholesky", "inv", "solve", "det", "qr", "slogdet"):
        setattr(np.linalg, name, make(name, getattr(np.linalg, name)))


def install_random():
    """Random draws are environment: route them to the harness stub (both modes)."""
    if "rnd" in _orig:
        return
    _orig["rnd"] = True
    for name in ("multivariate_normal", "choice", "normal", "randn", "uniform",
                 "standard_normal"):
        orig = getattr(np.random, name)

        def make(name, orig):
            def wrapper(*a, **k):
                if RANDOM["stub"] is not None:
                    return RANDOM["stub"](name, a, k)
                return orig(*a, **k)

            wrapper.__name__ = name
            return wrapper

        setattr(np.random, name, make(name, orig))
    orig_rng = np.random.default_rng

    class Rng:
        def __init__(self, r):
            self._r = r

        def __getattr__(self, n):
            if RANDOM["stub"] is not None:
                return lambda *a, **k: RANDOM["stub"](n, a, k)
            return getattr(self._r, n)

    def default_rng(*a, **k):
        return Rng(orig_rng(*a, **k)) if RANDOM["stub"] is not None else orig_rng(*a, **k)

    np.random.default_rng = default_rng


class _M(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class FloatShim(float, metaclass=_M):
    """float() as seen by the code under test: symbolic scalars stay symbolic."""

    def __new__(cls, x=0.0):
        if ACTIVE["on"]:
            if isinstance(x, (SymReal, SymBool)):
                return lift(x)
            if hasattr(x, "aval") and hasattr(x, "val") or (
                    isinstance(x, np.ndarray) and x.dtype == object and x.size == 1):
                y = np.asarray(x).reshape(-1)[0]
                if isinstance(y, (SymReal, SymBool)):
                    return lift(y)
        return float(x)


FloatShim.dtype = np.dtype(float)  # numpy and pandas accept it where they accept float


class MathShim:
    """math as seen by the code under test."""

    def __getattr__(self, name):
        import math

        f = getattr(math, name)
        if not callable(f):
            return f

        def g(*a):
            if ACTIVE["on"] and any(isinstance(x, SymReal) for x in a):
                x = lift(a[0])
                if name in ("sqrt", "exp", "log", "log1p", "expm1") and len(a) == 1:
                    return getattr(x, name)()
                if name == "isnan":
                    return bool(SymBool(x.nan))
                if name == "isfinite":
                    return not bool(SymBool(x.nan))
                if name == "fabs":
                    return abs(x)
                if name == "pow":
                    return x ** a[1]
                raise NotImplementedError(f"math.{name} of a symbolic value")
            return f(*a)

        return g


def shim_module(mod):
    import math

    mod.__dict__["float"] = FloatShim
    for k, v in list(mod.__dict__.items()):
        if v is math:
            mod.__dict__[k] = MathShim()
