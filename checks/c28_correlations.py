"""C28: reported correlations are those of the right variables, periods and individuals."""
import math

import numpy as np
import pandas as pd

from checks import models, oracle as O
from checks.common import name_of, obj, panel, panel_values, params_df, theta
from symx.engine import harness

M = "skillmodels.correlation_heatmap."


def pearson(ctx, xs, ys):
    ok = [(x, y) for x, y in zip(xs, ys) if not (nan(x) or nan(y))]
    n = len(ok)
    mx, my = sum(x for x, _ in ok) / n, sum(y for _, y in ok) / n
    sxy = sum((x - mx) * (y - my) for x, y in ok)
    sxx, syy = sum((x - mx) * (x - mx) for x, _ in ok), sum((y - my) * (y - my) for _, y in ok)
    return sxy / (ctx.sqrt(sxx) * ctx.sqrt(syy))


def nan(x):
    return isinstance(x, float) and x != x


def avg(xs):
    xs = [x for x in xs if not nan(x)]
    return sum(xs) / len(xs) if xs else math.nan


def chosen(md, factors):
    if not factors:
        return O.latent(md), O.observed(md)
    fs = [factors] if isinstance(factors, str) else factors
    return [f for f in fs if f in O.latent(md)], [f for f in fs if f in O.observed(md)]


def periods_of(md, periods):
    if periods is None:
        return list(range(O.n_periods(md)))
    return [periods] if isinstance(periods, int) else periods


def columns(ctx, md, vals, n, factors, periods, kind, th=None, zero=()):
    """[(label, values per individual)]; zero: loadings that are zero, thus measure nothing."""
    lat, obs = chosen(md, factors)
    ps = periods_of(md, periods)
    out = []
    for t in ps:
        tag = "" if len(ps) == 1 else f", {t}"
        for f in lat:
            ms = [m for m, fs in O.measured(md, t) if f in fs]
            cols = {m: [vals[(i, t, m)] for i in range(n)] for m in ms}
            if kind == "measurements":
                out += [(m + tag, c) for m, c in cols.items()]
                continue
            if kind == "quasi":
                for m, c in cols.items():
                    mu = avg(c)
                    k = sum(1 for x in c if not nan(x))
                    sd = ctx.sqrt(sum((x - mu) * (x - mu) for x in c if not nan(x)) / (k - 1))
                    cols[m] = [x if nan(x) else (x - mu) / sd for x in c]
            else:
                cols = {m: [x if nan(x) else (x - th[("controls", t, m, "constant")])
                            / th[("loadings", t, m, f)] for x in c] for m, c in cols.items()
                        if [g for g in dict(O.measured(md, t))[m] if (t, m, g) not in zero]
                        == [f]}
            out.append((f + tag, [avg([c[i] for c in cols.values()]) for i in range(n)]))
        for f in obs:
            out.append((f + tag, [vals[(i, t, f)] for i in range(n)]))
    return out


CFG = [("two", 3, None, None, []), ("two", 3, None, 1, []), ("two_late", 3, "a", None, []),
       ("two_late", 3, ["a", "b"], [0, 1], []), ("two_late", 3, ["b", "a"], 0, []),
       ("obs", 3, None, 0, []), ("obs", 3, ["obs1", "b"], [1, 0], []), ("obs2", 3, "obs1", None, []),
       ("shared", 3, None, 0, []), ("shared", 3, "b", [0, 1], []),
       ("anch", 3, None, [0, 1], []), ("three", 3, ["c", "a"], 0, []),
       ("two", 4, None, None, [[0, 0, "ya1"], [2, 1, "yb1"]]),
       ("odd_names", 3, None, None, []),
       ("odd_const", 3, None, 0, []), ("overlap", 3, None, [0, 1], []),
       ("single", 3, None, None, []), ("long12", 3, "a", [10, 2], []),
       ("meas12", 3, None, 1, []), ("wide12", 3, ["f10", "f1"], 0, [])]
THOROUGH = [("three", 4, None, None, [[0, 0, "ya1"]]), ("same_meas", 4, None, [0, 2], [])]


def cfgs(kinds, base):
    return [dict(kind=k, model=m, n=n, factors=f, periods=p, nan=na)
            for m, n, f, p, na in base for k in kinds]


KINDS = ["measurements", "quasi", "scores"]
ZERO = [dict(kind="scores", model=m, n=3, factors=None, periods=p, nan=[], zero=z) for m, p, z in [
    ("shared", 0, [[0, "y2", "b"]]), ("shared", None, [[0, "y2", "a"]]),
    ("meas12", 0, [[0, "y2", "a"]])]]


def slow(c):
    return c["kind"] == "quasi" and c["model"] == "three"


@harness(
    "C28", "tables",
    configs=[c for c in cfgs(KINDS, CFG) if not slow(c)] + ZERO,
    thorough=cfgs(KINDS, THOROUGH) + [c for c in cfgs(KINDS, CFG) if slow(c)],
    functions=[M + "get_measurements_corr", M + "get_quasi_scores_corr", M + "get_scores_corr"],
    bounds="12 model structures, 3-4 individuals in scrambled row order with own period labels; "
           "selections of factors and periods; all data and parameters symbolic",
)
def tables(ctx, cfg):
    import skillmodels.correlation_heatmap as ch

    md, n, kind = models.model(cfg["model"]), cfg["n"], cfg["kind"]
    vals = panel_values(ctx, md, n, nan=[tuple(k) for k in cfg["nan"]])
    T = O.n_periods(md)
    df = panel(ctx, md, vals, n, ids=[9, 4, 6, 5][:n], periods=[10 + 2 * t for t in range(T)],
               order=lambda r: r[::-1], extra=["note"])
    th = theta(ctx, md)
    for lab in [k for k in th if k[0] == "loadings"][1::2]:
        th[lab] = -th[lab]
    zero = [tuple(z) for z in cfg.get("zero", [])]
    for t, m, f in zero:
        th[("loadings", t, m, f)] = 0.0
    a = dict(data=df, model_dict=md, factors=cfg["factors"], periods=cfg["periods"])
    if kind == "measurements":
        got = ch.get_measurements_corr(**a)
    elif kind == "quasi":
        got = ch.get_quasi_scores_corr(**a)
    else:
        got = ch.get_scores_corr(
            params=params_df(ctx, O.param_labels(md), th, order=lambda l: l[::-1]), **a)
    cols = columns(ctx, md, vals, n, cfg["factors"], cfg["periods"], kind, th, zero)
    labels = [c for c, _ in cols]
    ctx.check("rows", sorted(got.index) == sorted(labels))
    ctx.check("columns", list(got.columns) == list(got.index))
    if len(set(labels)) != len(labels):
        return
    for la, xs in cols:
        for lb, ys in cols:
            if sum(1 for x, y in zip(xs, ys) if not (nan(x) or nan(y))) < 2:
                continue
            ctx.equal(f"correlation of {la} and {lb}", [got.loc[la, lb]], [pearson(ctx, xs, ys)])


@harness(
    "C28", "heatmap",
    configs=[dict(n=n, upper=u, diag=d, trim=t) for n in (2, 3) for u in (True, False)
             for d in (True, False) for t in (True, False)]
    + [dict(n=n, upper=u, diag=d, trim=t, auto=True) for n in (2, 3) for u, d, t in [
        (False, False, True), (False, True, False), (True, True, False)]]
    + [dict(n=2, upper=False, diag=False, trim=True, given=g) for g in (
        ["zmax"], ["zmax", "zmin"], ["zmax", "zmid"], ["zmax", "zmid", "zmin"])]
    + [dict(n=3, upper=u, diag=d, trim=True, nan=k) for k in (0, 1, 2) for u, d in [
        (False, False), (True, False), (False, True)]],
    functions=[M + "plot_correlation_heatmap"],
    bounds="2x2 and 3x3 tables with symbolic entries; all combinations of triangle, diagonal and "
           "trimming; colour ranges with given ends; values are rounded (compared up to rounding when replayed)",
)
def heatmap(ctx, cfg):
    from skillmodels.correlation_heatmap import plot_correlation_heatmap

    n = cfg["n"]
    names = ["v c", "v a", "v b"][:n]
    a = np.empty((n, n), dtype=obj(ctx))
    for i in range(n):
        a[i, i] = ctx.pin(1) if ctx.symbolic else 1.0
        for j in range(i):
            a[i, j] = a[j, i] = ctx.real(f"r {i} {j}", -1, 1)
    undefined = cfg.get("nan")  # a variable whose correlations are all missing
    if undefined is not None:
        a[undefined, :] = a[:, undefined] = math.nan
    scale = {} if cfg.get("auto") else {"zmax": 1, "zmin": -1, "zmid": 0}
    if cfg.get("given"):
        scale = {k: ctx.real(k, lo, lo + 1) for k, lo in [("zmax", 1), ("zmin", -2), ("zmid", 0)]
                 if k in cfg["given"]}
    fig = plot_correlation_heatmap(
        pd.DataFrame(a, index=names, columns=names), **scale, rounding=9,
        show_upper_triangle=cfg["upper"], show_diagonal=cfg["diag"], trim_heatmap=cfg["trim"])
    h = fig.data[0]
    if cfg.get("auto"):
        below = [a[i, j] for i in range(n) for j in range(i)]
        for k, r in enumerate(below):
            ctx.check(f"color range covers {k}", r <= h.zmax)
            ctx.check(f"color range covers -{k}", -r <= h.zmax)
        prod = 1
        for r in below:
            prod = prod * (r - h.zmax) * (r + h.zmax)
        ctx.equal("the largest absolute correlation is the end of the color range", [prod], [0])
        ctx.equal("color range", [h.zmin, h.zmid], [-h.zmax, 0])
    if cfg.get("given"):
        want = {"zmid": 0, "zmin": -scale["zmax"], **scale}
        ctx.equal("given color range", [h.zmax, h.zmin, h.zmid],
                  [want["zmax"], want["zmin"], want["zmid"]])
    shown = {(i, j) for i in range(n) for j in range(n)
             if (j < i or (j > i and cfg["upper"]) or (i == j and cfg["diag"]))
             and undefined not in (i, j)}
    rows = [i for i in range(n) if not cfg["trim"] or any(r == i for r, _ in shown)]
    cols = [j for j in range(n) if not cfg["trim"] or any(c == j for _, c in shown)]
    ctx.check("rows", list(h.y) == [names[i] for i in rows])
    ctx.check("columns", list(h.x) == [names[j] for j in cols])
    z = np.array([list(r) for r in h.z], dtype=object)
    for r, i in enumerate(rows):
        for c, j in enumerate(cols):
            want = a[i, j] if (i, j) in shown else math.nan
            ctx.equal(f"entry {names[i]} {names[j]}", [z[r, c]], [want])
    text = {(x["y"], x["x"]): x["text"] for x in fig.layout.annotations}
    ctx.check("annotations", set(text) == {(names[i], names[j]) for i in rows for j in cols}
              and all((text[(names[i], names[j])] == "") == ((i, j) not in shown)
                      for i in rows for j in cols))
