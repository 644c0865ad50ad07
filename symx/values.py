"""Symbolic values that live inside python code, numpy object arrays and pandas."""
import math
import numbers
from fractions import Fraction

import numpy as np

from . import terms as T

# set by the engine: callable(bool term) -> bool, forks the execution
FORK = None
# set by jaxsym: callable(object ndarray, dtype) -> tracer
TO_TRACER = None


# floats that stand for a symbolic value where the code insists on a float (data routing)
TOKENS = {}
_TOKEN_OF = {}
TOKEN_COUNT = {"n": 0}


def reset_tokens():
    TOKENS.clear()
    _TOKEN_OF.clear()


def token(x):
    key = (x.t.id, x.nan.id)
    f = _TOKEN_OF.get(key)
    if f is None:
        n = len(_TOKEN_OF) + 1
        lo, hi = x.t.lo, x.t.hi
        lo = float(max(lo, -1000)) if lo > -T.INF else -1000.0
        hi = float(min(hi, 1000)) if hi < T.INF else 1000.0
        if lo >= hi:
            lo, hi = lo, lo + 1.0
        f = lo + (hi - lo) * ((n * 0.6180339887498949 + 0.137218391) % 1.0)
        while f in TOKENS:
            f += 1.2345e-9
        TOKENS[f] = x
        _TOKEN_OF[key] = f
        TOKEN_COUNT["n"] += 1
    return f


def has_tokens(a):
    return bool(TOKENS) and any(float(v) in TOKENS for v in np.asarray(a).reshape(-1))


class Concretized(Exception):
    """Code asked for the concrete value of a symbolic quantity."""


def _nan_or(*flags):
    return T.or_(*flags)


def lift(x):
    """Anything numeric -> SymReal."""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return SymReal(T.ite(x.t, T.ONE, T.ZERO))
    if isinstance(x, (bool, np.bool_)):
        return SymReal(T.const(int(x)))
    if isinstance(x, (int, np.integer)):
        return SymReal(T.const(int(x)))
    if isinstance(x, Fraction):
        return SymReal(T.const(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return NAN
        if TOKENS and x in TOKENS:
            return TOKENS[x]
        return SymReal(T.const_from_float(x))
    if x is None:
        return NAN
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if hasattr(x, "shape") and x.shape == () and hasattr(x, "__array__"):
        return lift(np.asarray(x).item())
    tn = type(x).__name__
    if tn == "NAType":
        return NAN
    raise TypeError(f"cannot lift {type(x)}")


def liftb(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return T.TRUE if x else T.FALSE
    if isinstance(x, SymReal):
        return T.or_(x.nan, T.not_(T.eq(x.t, T.ZERO)))
    if isinstance(x, (int, float, np.integer, np.floating)):
        return T.TRUE if x else T.FALSE
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return liftb(x.item())
    if hasattr(x, "shape") and x.shape == ():
        return liftb(np.asarray(x).item())
    raise TypeError(f"cannot lift bool {type(x)}")


def _integral(t):
    """Integer-valued for sure, with a small known range?"""
    if t.lo == -T.INF or t.hi == T.INF or t.hi - t.lo > 100:
        return False
    for s in T.subterms([t]):
        if s.op == "v":
            if not T.is_int_var(s.val):
                return False
        elif s.op == "c":
            if s.val.denominator != 1:
                return False
        elif s.op not in ("+", "*", "add", "mul", "neg", "sub"):
            return False
    return True


def _num(x):
    return isinstance(x, (SymReal, SymBool, int, float, np.number, np.bool_, Fraction))


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        if self.t is T.TRUE:
            return True
        if self.t is T.FALSE:
            return False
        return FORK(self.t)

    def __and__(self, o):
        return SymBool(T.and_(self.t, liftb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(T.or_(self.t, liftb(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(T.not_(T.eq(self.t, liftb(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(T.not_(self.t))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return SymBool(T.eq(self.t, liftb(o)))
        if _num(o):
            return lift(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __hash__(self):
        return 7

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return lift(o) - lift(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return f"SymBool({T.show(self.t, 3)})"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self


class SymReal:
    __slots__ = ("t", "nan")

    def __init__(self, t, nan=T.FALSE):
        self.t = t
        self.nan = nan

    # ---------------------------------------------------------------- arith
    def _bin(self, o, f, rev=False):
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        nan = T.or_(a.nan, b.nan)
        if nan is T.TRUE:
            return NAN
        try:
            return SymReal(f(a.t, b.t), nan)
        except ZeroDivisionError:
            return NAN

    def _arr(self, o):
        return isinstance(o, np.ndarray) or (
            not isinstance(o, SymReal) and hasattr(o, "shape") and hasattr(o, "aval")
        )

    def _to_tracer(self):
        a = np.empty((), dtype=object)
        a[()] = self
        return TO_TRACER(a, np.dtype("float64"))

    def __jax_array__(self):
        return self._to_tracer()

    def _mixed(self, o, f):
        if hasattr(o, "aval"):
            return f(self._to_tracer(), o)
        return None

    def __add__(self, o):
        if hasattr(o, "aval"):
            return self._to_tracer() + o
        return self._bin(o, T.add)

    def __radd__(self, o):
        if hasattr(o, "aval"):
            return o + self._to_tracer()
        return self._bin(o, T.add, True)

    def __sub__(self, o):
        if hasattr(o, "aval"):
            return self._to_tracer() - o
        return self._bin(o, T.sub)

    def __rsub__(self, o):
        if hasattr(o, "aval"):
            return o - self._to_tracer()
        return self._bin(o, T.sub, True)

    def __mul__(self, o):
        if hasattr(o, "aval"):
            return self._to_tracer() * o
        return self._bin(o, T.mul)

    def __rmul__(self, o):
        if hasattr(o, "aval"):
            return o * self._to_tracer()
        return self._bin(o, T.mul, True)

    def __truediv__(self, o):
        if hasattr(o, "aval"):
            return self._to_tracer() / o
        return self._bin(o, T.div)

    def __rtruediv__(self, o):
        if hasattr(o, "aval"):
            return o / self._to_tracer()
        return self._bin(o, T.div, True)

    def __neg__(self):
        return SymReal(T.neg(self.t), self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(T.abs_(self.t), self.nan)

    def __pow__(self, n):
        if hasattr(n, "aval"):
            return self._to_tracer() ** n
        if isinstance(n, SymReal):
            if n.t.op != "c":
                return SymReal(T.exp(T.mul(n.t, T.log(self.t))), T.or_(self.nan, n.nan))
            n = n.t.val
        n = Fraction(n).limit_denominator(1000)
        if n.denominator == 1:
            try:
                return SymReal(T.powi(self.t, int(n)), self.nan)
            except ZeroDivisionError:
                return NAN
        if n.denominator == 2:
            r = SymReal(T.sqrt(self.t), self.nan)
            return r ** int(n.numerator)
        return SymReal(T.exp(T.mul(T.const(n), T.log(self.t))), self.nan)

    def __rpow__(self, o):
        return lift(o) ** self

    def sqrt(self):
        return SymReal(T.sqrt(self.t), self.nan)

    def exp(self):
        return SymReal(T.exp(self.t), self.nan)

    def log(self):
        return SymReal(T.log(self.t), self.nan)

    def square(self):
        return self * self

    def log1p(self):
        return (self + 1).log()

    def expm1(self):
        return self.exp() - 1

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def isnan(self):
        return SymBool(self.nan)

    def isfinite(self):
        return SymBool(T.not_(self.nan))

    # ----------------------------------------------------------- comparison
    def _cmp(self, o, f):
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        nn = T.not_(T.or_(self.nan, o.nan))
        if nn is T.FALSE:
            return SymBool(T.FALSE)
        return SymBool(T.and_(nn, f(self.t, o.t)))

    def __lt__(self, o):
        if hasattr(o, "aval"):
            return self._to_tracer() < o
        return self._cmp(o, T.lt)

    def __le__(self, o):
        if hasattr(o, "aval"):
            return self._to_tracer() <= o
        return self._cmp(o, T.le)

    def __gt__(self, o):
        if hasattr(o, "aval"):
            return self._to_tracer() > o
        return self._cmp(o, lambda a, b: T.lt(b, a))

    def __ge__(self, o):
        if hasattr(o, "aval"):
            return self._to_tracer() >= o
        return self._cmp(o, lambda a, b: T.le(b, a))

    def __eq__(self, o):
        if isinstance(o, str) or o is None:
            return False
        if isinstance(o, (np.ndarray, list, tuple, dict)):
            return NotImplemented
        return self._cmp(o, T.eq)

    def __ne__(self, o):
        if isinstance(o, str) or o is None:
            return True
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        if self.nan is T.FALSE and self.t.op != "c" and _integral(self.t):
            return hash(self._pick())
        return 11

    def _pick(self):
        """The value of an integer quantity, by forking over its range."""
        lo, hi = math.ceil(self.t.lo), math.floor(self.t.hi)
        for v in range(lo, hi):
            if self == v:
                return v
        return hi

    # ---------------------------------------------------------- conversions
    def __bool__(self):
        return bool(SymBool(liftb(self)))

    def __float__(self):
        if self.nan is T.TRUE:
            return math.nan
        if self.t.op == "c" and self.nan is T.FALSE:
            return float(self.t.val)
        return token(self)

    def __int__(self):
        if self.t.op == "c" and self.nan is T.FALSE:
            return int(self.t.val)
        if self.nan is T.FALSE and _integral(self.t):
            return self._pick()
        raise Concretized(f"int() of symbolic value {self!r}")

    def __index__(self):
        if self.t.op == "c" and self.t.val.denominator == 1 and self.nan is T.FALSE:
            return int(self.t.val)
        if self.nan is T.FALSE and _integral(self.t):
            return self._pick()
        raise Concretized(f"index of symbolic value {self!r}")

    def __repr__(self):
        n = "" if self.nan is T.FALSE else f" nan:{T.show(self.nan, 2)}"
        return f"Sym({T.show(self.t, 3)}{n})"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    @property
    def real(self):
        return self


numbers.Number.register(SymReal)

NAN = SymReal(T.ZERO, T.TRUE)


def has_sym(x):
    """True if an object (nested list / ndarray) contains symbolic leaves."""
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(e, (SymReal, SymBool)) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def obj_array(x):
    """ndarray of SymReal/SymBool from any array-like."""
    a = np.asarray(x) if not isinstance(x, np.ndarray) else x
    if a.dtype == object:
        out = np.empty(a.shape, dtype=object)
        of, af = out.reshape(-1), a.reshape(-1)
        for i in range(af.size):
            e = af[i]
            of[i] = e if isinstance(e, (SymReal, SymBool)) else lift(e)
        return of.reshape(a.shape)
    out = np.empty(a.size, dtype=object)
    flat = a.reshape(-1)
    if a.dtype == np.bool_:
        for i in range(a.size):
            out[i] = SymBool(T.TRUE if flat[i] else T.FALSE)
    else:
        cache = {}
        for i in range(a.size):
            v = flat[i].item()
            k = v if v == v else "nan"
            if k not in cache:
                cache[k] = TOKENS[v] if TOKENS and v in TOKENS else lift(v)
            out[i] = cache[k]
    return out.reshape(a.shape)
