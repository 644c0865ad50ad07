"""pandas statistics on object columns that hold symbolic values.

pandas converts object columns to floats inside mean, std, quantile and corr. While a symbolic
execution is active, these reductions are carried out on the symbolic values instead (missing
values are skipped as pandas does). Everything else of pandas runs as is.
"""
import math

import numpy as np
import pandas as pd

from . import values as V
from .npsym import ACTIVE
from .values import SymBool, SymReal, lift

_orig = {}


def _sym(x):
    if isinstance(x, pd.DataFrame):
        return any(_sym(x.iloc[:, j]) for j in range(x.shape[1]))
    return x.dtype == object and V.has_sym(x.to_numpy())


def _clean(vals):
    """Non-missing values (a symbolic missing flag forks)."""
    out = []
    for v in vals:
        v = lift(v)
        if not bool(SymBool(v.nan)):
            out.append(SymReal(v.t))
    return out


def mean(vals):
    xs = _clean(vals)
    return sum(xs[1:], xs[0]) / len(xs) if xs else math.nan


def var(vals, ddof=1):
    xs = _clean(vals)
    if len(xs) <= ddof:
        return math.nan
    m = mean(xs)
    return sum(((x - m) * (x - m) for x in xs[1:]), (xs[0] - m) * (xs[0] - m)) / (len(xs) - ddof)


def std(vals, ddof=1):
    v = var(vals, ddof)
    return v if isinstance(v, float) else v.sqrt()


def quantile(vals, q):
    xs = _clean(vals)
    if not xs:
        return math.nan
    xs = ordered(xs)
    pos = q * (len(xs) - 1)
    lo = math.floor(pos + 1e-12)
    fr = pos - lo
    if abs(fr) < 1e-12 or lo + 1 >= len(xs):
        return xs[lo]
    return xs[lo] + (xs[lo + 1] - xs[lo]) * lift(fr)


def ordered(xs):
    out = []
    for x in xs:
        i = len(out)
        while i > 0 and bool(x < out[i - 1]):
            i -= 1
        out.insert(i, x)
    return out


def cov(a, b, ddof=1):
    pairs = [(lift(x), lift(y)) for x, y in zip(a, b)]
    pairs = [(x, y) for x, y in pairs if not bool(SymBool(x.nan)) and not bool(SymBool(y.nan))]
    n = len(pairs)
    if n <= ddof:
        return math.nan
    mx = sum((x for x, _ in pairs[1:]), pairs[0][0]) / n
    my = sum((y for _, y in pairs[1:]), pairs[0][1]) / n
    return sum(((x - mx) * (y - my) for x, y in pairs), lift(0)) / (n - ddof)


def corr(a, b):
    pairs = [(lift(x), lift(y)) for x, y in zip(a, b)]
    pairs = [(x, y) for x, y in pairs if not bool(SymBool(x.nan)) and not bool(SymBool(y.nan))]
    if len(pairs) < 2:
        return math.nan
    n = len(pairs)
    mx = sum((x for x, _ in pairs[1:]), pairs[0][0]) / n
    my = sum((y for _, y in pairs[1:]), pairs[0][1]) / n
    z = lift(0)
    sxy = sum(((x - mx) * (y - my) for x, y in pairs), z)
    sxx = sum(((x - mx) * (x - mx) for x, _ in pairs), z)
    syy = sum(((y - my) * (y - my) for _, y in pairs), z)
    return sxy / (sxx.sqrt() * syy.sqrt())


def _frame_reduce(f):
    def impl(self, axis=0, skipna=True, numeric_only=False, **k):
        if isinstance(self, pd.Series):
            return f(self.to_numpy(), **k)
        arr = self.to_numpy(dtype=object)
        if axis in (1, "columns"):
            vals, idx = [f(arr[i], **k) for i in range(arr.shape[0])], self.index
        else:
            vals, idx = [f(arr[:, j], **k) for j in range(arr.shape[1])], self.columns
        out = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            out[i] = v
        return pd.Series(out, index=idx, dtype=object)

    return impl


def _quantile(self, q=0.5, axis=0, numeric_only=False, interpolation="linear", **k):
    if interpolation != "linear":
        raise NotImplementedError(interpolation)
    qs = [q] if np.isscalar(q) else list(q)
    if isinstance(self, pd.Series):
        vals = [quantile(self.to_numpy(), float(x)) for x in qs]
        return vals[0] if np.isscalar(q) else pd.Series(vals, index=qs, dtype=object)
    cols = [[quantile(self.iloc[:, j].to_numpy(), float(x)) for j in range(self.shape[1])]
            for x in qs]
    if np.isscalar(q):
        out = pd.Series(index=self.columns, dtype=object, name=q)
        for j, v in enumerate(cols[0]):
            out.iloc[j] = v
        return out
    return pd.DataFrame(cols, index=qs, columns=self.columns, dtype=object)


def _corr(self, method="pearson", *a, **k):
    if method != "pearson":
        raise NotImplementedError(method)
    n = self.shape[1]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = corr(self.iloc[:, i].to_numpy(), self.iloc[:, j].to_numpy())
    return pd.DataFrame(out, index=self.columns, columns=self.columns)


def _scorr(self, other, method="pearson", min_periods=None):
    if method != "pearson":
        raise NotImplementedError(method)
    a, b = self.align(other, join="inner")
    return corr(a.to_numpy(), b.to_numpy())


def _scov(self, other, min_periods=None, ddof=1):
    a, b = self.align(other, join="inner")
    return cov(a.to_numpy(), b.to_numpy(), ddof)


def _cov(self, min_periods=None, ddof=1, numeric_only=False):
    n = self.shape[1]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = cov(self.iloc[:, i].to_numpy(), self.iloc[:, j].to_numpy(), ddof)
    return pd.DataFrame(out, index=self.columns, columns=self.columns)


def _corrwith(self, other, axis=0, drop=False, method="pearson", numeric_only=False):
    if axis not in (0, "index"):
        raise NotImplementedError("corrwith along rows")
    if isinstance(other, pd.Series):
        return pd.Series({c: _scorr(self[c], other) for c in self.columns}, dtype=object)
    return pd.Series({c: _scorr(self[c], other[c]) for c in self.columns if c in other},
                     dtype=object)


def _median(self, axis=0, **k):
    if isinstance(self, pd.Series):
        return quantile(self.to_numpy(), 0.5)
    if axis in (1, "columns"):
        return _frame_reduce(lambda v: quantile(v, 0.5))(self, axis=1)
    out = _quantile(self, 0.5)
    out.name = None
    return out


def _wants_float(dtype):
    from .npsym import _is_float

    try:
        return _is_float(dtype)
    except TypeError:
        return False


def _group(f):
    def impl(self, *a, **k):
        return self.agg(lambda s: f(s.to_numpy(), *a, **k))

    return impl


_group_mean = _group(lambda v, *a, **k: mean(v))


def install():
    if _orig:
        return

    def patch(cls, name, impl, test=_sym):
        orig = getattr(cls, name)
        _orig[(cls, name)] = orig

        def wrapper(self, *a, **k):
            if ACTIVE["on"] and test(self):
                return impl(self, *a, **k)
            return orig(self, *a, **k)

        wrapper.__name__ = name
        setattr(cls, name, wrapper)

    for cls in (pd.DataFrame, pd.Series):
        patch(cls, "mean", _frame_reduce(mean))
        patch(cls, "var", _frame_reduce(var))
        patch(cls, "std", _frame_reduce(std))
        patch(cls, "quantile", _quantile)
        patch(cls, "median", _median)
    patch(pd.DataFrame, "corr", _corr)
    patch(pd.DataFrame, "cov", _cov)
    patch(pd.DataFrame, "corrwith", _corrwith)
    patch(pd.Series, "corr", _scorr)
    patch(pd.Series, "cov", _scov)
    from pandas.core.groupby.generic import DataFrameGroupBy, SeriesGroupBy

    patch(DataFrameGroupBy, "mean", _group_mean, test=lambda g: _sym(g._selected_obj))
    patch(SeriesGroupBy, "mean", _group_mean, test=lambda g: _sym(g._selected_obj))
    for cls in (DataFrameGroupBy, SeriesGroupBy):
        t = (lambda g: _sym(g._selected_obj))
        patch(cls, "median", _group(lambda v, *a, **k: quantile(v, 0.5)), test=t)
        patch(cls, "quantile", _group(lambda v, q=0.5, *a, **k: quantile(v, q)), test=t)
        patch(cls, "std", _group(lambda v, ddof=1, *a, **k: std(v, ddof)), test=t)
        patch(cls, "var", _group(lambda v, ddof=1, *a, **k: var(v, ddof)), test=t)
    for cls in (pd.DataFrame, pd.Series):
        for name in ("astype", "to_numpy"):
            _float_conversion(cls, name)


def _float_conversion(cls, name):
    from .npsym import _from_pkg

    orig = getattr(cls, name)
    _orig[(cls, name)] = orig

    def wrapper(self, dtype=None, *a, **k):
        if (ACTIVE["on"] and dtype is not None and _from_pkg() and _wants_float(dtype)
                and _sym(self)):
            return self.copy() if name == "astype" else orig(self, object)
        return orig(self, dtype, *a, **k)

    wrapper.__name__ = name
    setattr(cls, name, wrapper)
