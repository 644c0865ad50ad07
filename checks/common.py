"""Shared harness plumbing (calls into the real code only through its entry points)."""
import zlib

import numpy as np
import pandas as pd

from checks import oracle as O


def obj(ctx):
    return object if ctx.symbolic else float


def arr(ctx, values):
    """Array of the harness' number type from nested lists."""
    a = np.array(values, dtype=object)
    if ctx.symbolic:
        return a
    return a.astype(float)


def process(md):
    from skillmodels.process_model import process_model

    return process_model(md)


def params_index(model):
    from skillmodels.params_index import get_params_index

    return get_params_index(
        model["update_info"], model["labels"], model["dimensions"], model["transition_info"])


def nice(label, lo=-1.0, hi=1.0):
    """A fixed dyadic number in (lo, hi) derived from a label."""
    h = zlib.crc32(repr(label).encode()) % 61 + 2
    from fractions import Fraction

    lo, hi = Fraction(lo), Fraction(hi)
    return lo + (hi - lo) * Fraction(h, 64)


def name_of(label):
    return "|".join(str(x) for x in label)


def theta(ctx, md, free=("all",), n_weights=True):
    """label -> value for every parameter of the model.

    Categories listed in ``free`` are symbolic (over an interval that is in the
    admissible set), the others are fixed at dyadic numbers.
    """
    out = {}
    nm = O.n_mix(md)
    for lab in O.param_labels(md):
        cat = lab[0]
        if cat in ("meas_sds", "shock_sds"):
            lo, hi = 0.25, 2
        elif cat == "initial_cholcovs":
            fs = lab[3]
            lo, hi = (0.5, 2) if any(fs == f"{f}-{f}" for f in O.latent(md)) else (-1, 1)
        elif cat == "loadings":
            lo, hi = 0.25, 2
        elif cat == "mixture_weights":
            lo, hi = 0.1, 0.9
        elif cat == "transition" and O.trans_kind(md, lab[2]) in ("log_ces", "log_ces_general"):
            lo, hi = 0.2, 1
        else:
            lo, hi = -1, 1
        if "all" in free or cat in free:
            out[lab] = ctx.real(name_of(lab), lo, hi)
        elif cat == "mixture_weights":
            from fractions import Fraction

            w = {1: [Fraction(1)], 2: [Fraction(1, 4), Fraction(3, 4)],
                 3: [Fraction(1, 2), Fraction(1, 8), Fraction(3, 8)]}[nm]
            out[lab] = ctx.pin(w[int(lab[2].split("_")[1])])
        else:
            out[lab] = ctx.pin(nice(lab, lo, hi))
    return out


def params_df(ctx, labels, th, order=None):
    labels = list(labels)
    if order is not None:
        labels = order(labels)
    idx = pd.MultiIndex.from_tuples(labels, names=["category", "period", "name1", "name2"])
    v = np.empty(len(labels), dtype=obj(ctx))
    for i, l in enumerate(labels):
        v[i] = th[l]
    return pd.DataFrame({"value": v}, index=idx)


def gram(u):
    n = len(u[0])
    return [[sum(u[k][i] * u[k][j] for k in range(len(u))) for j in range(n)] for i in range(n)]


def np_(x):
    return np.array(x)


# ------------------------------------------------------------------- panel data
def data_columns(md):
    """column -> periods in which the model uses it."""
    T = O.n_periods(md)
    out = {}
    for t in range(T):
        for m, _ in O.measured(md, t):
            out.setdefault(m, []).append(t)
        for _, y, _ in O.anchor_eqs(md):
            if t not in out.setdefault(y, []):
                out[y].append(t)
    return out


def panel_values(ctx, md, n, nan=(), flags=(), pin=False, controls_nan=()):
    """(individual, period, column) -> value; cells in nan are missing, in flags maybe."""
    import math

    T, out = O.n_periods(md), {}
    for c in data_columns(md):
        for t in range(T):
            for i in range(n):
                k = (i, t, c)
                if k in nan:
                    out[k] = math.nan
                elif k in flags and ctx.flag(f"missing {c} {t} {i}"):
                    out[k] = math.nan
                elif pin:
                    out[k] = ctx.pin(nice(("data", c, t), -1, 1) + i)
                else:
                    out[k] = ctx.real(f"{c}.{t}.{i}", i - 1, i - 0.5)
    for c in list(md.get("controls", [])) + O.observed(md):
        for t in range(T):
            for i in range(n):
                out[(i, t, c)] = (ctx.pin(nice(("data", c, t, i), -1, 1)) if pin
                                  else ctx.real(f"{c}.{t}.{i}", -1, 1))
    for k in controls_nan:
        out[k] = math.nan
    return out


def panel(ctx, md, vals, n, ids=None, periods=None, order=None, drop=(), extra=()):
    """Long-format frame indexed by (individual, period)."""
    import math

    T = O.n_periods(md)
    ids = ids or list(range(n))
    periods = periods or list(range(T))
    rows = [(i, t) for i in range(n) for t in range(T) if (i, t) not in drop]
    if order is not None:
        rows = order(rows)
    cols = list(dict.fromkeys(k[2] for k in vals))
    data = {}
    for c in cols:
        col = np.empty(len(rows), dtype=obj(ctx))
        for r, (i, t) in enumerate(rows):
            col[r] = vals.get((i, t, c), math.nan)
        data[c] = col
    for c in extra:
        data[c] = [f"text {r}" for r in range(len(rows))]
    idx = pd.MultiIndex.from_tuples([(ids[i], periods[t]) for i, t in rows],
                                    names=["child", "age"])
    return pd.DataFrame(data, index=idx)




class no_ranges:
    """Leave out the minima and maxima of states (their order would have to branch)."""

    def __init__(self, ctx, on=True):
        self.on = on and ctx.symbolic

    def __enter__(self):
        import skillmodels.filtered_states as fs
        import skillmodels.process_debug_data as pdd
        import skillmodels.simulate_data as sd

        self.mods = [m for m in (fs, pdd, sd) if hasattr(m, "create_state_ranges")]
        self.orig = [m.create_state_ranges for m in self.mods]
        if self.on:
            for m in self.mods:
                m.create_state_ranges = lambda *a, **k: {}

    def __exit__(self, *a):
        for m, o in zip(self.mods, self.orig):
            m.create_state_ranges = o
