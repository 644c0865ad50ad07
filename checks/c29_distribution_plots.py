"""C29: density plots show the states of the factors, period and individuals they name."""
import math

import numpy as np
import pandas as pd

from checks import models, oracle as O
from checks.c26_transition_plots import inputs, states_given
from checks.common import panel, params_df, theta
from symx.engine import harness

M = "skillmodels.visualize_factor_distributions."


class estimators:
    """Kernel density estimates and distplots are environment: stand-ins that keep their input.

    The stand-in for the density at a point is a symmetric polynomial of the observations from
    which the set of observations and the point can be read off, coefficient by coefficient.
    """

    def __init__(self, ctx):
        self.c = [ctx.real(f"kernel {k}", 0.5 + k, 1 + k) for k in range(5)]

    def value(self, obs, point):
        out = 1
        s, a, b, c, d = self.c
        for x, y in obs:
            out = out * (s + a * x + b * y + c * point[0] + d * point[1])
        return out

    def __enter__(self):
        import jax.scipy.stats  # noqa: F401 (needs the real estimator when it is imported)
        import plotly.figure_factory as ff
        import plotly.graph_objects as go
        import scipy.stats as st
        import skillmodels.visualize_factor_distributions as v

        outer = self

        class Kernel:
            def __init__(self, dataset, *a, **k):
                self.obs = list(zip(*[list(r) for r in dataset]))

            def evaluate(self, points):
                cols = [list(r) for r in points]
                out = np.empty(len(cols[0]), dtype=object)
                for i in range(len(out)):
                    out[i] = outer.value(self.obs, [c[i] for c in cols])
                return out

            __call__ = pdf = evaluate

        def distplot(hist_data, group_labels, *a, **k):
            fig = go.Figure()
            for h, g in zip(hist_data, group_labels):
                fig.add_trace(go.Scatter(x=np.array(list(h), dtype=object), name=str(g)))
            return fig

        self.undo = [(m, "gaussian_kde", m.gaussian_kde) for m in (st, v)
                     if hasattr(m, "gaussian_kde")]
        self.undo.append((ff, "create_distplot", ff.create_distplot))
        if hasattr(v, "create_distplot"):
            self.undo.append((v, "create_distplot", v.create_distplot))
        for m, n, _ in self.undo:
            setattr(m, n, Kernel if n == "gaussian_kde" else distplot)
        return self

    def __exit__(self, *a):
        for m, n, o in self.undo:
            setattr(m, n, o)


def scaled(ctx, df, fs, k):
    """States of another scenario."""
    out = df.copy()
    for f in fs:
        out[f] = [x * 2 + k for x in df[f]]
    return out


def given(ctx, md, df, how):
    fs = O.latent(md)
    if how in ("none", "frame"):
        return df if how == "frame" else None, {"none": (1, 0)}
    dfs = [scaled(ctx, df, fs, 3), df]
    if how == "many":
        return [scaled(ctx, df, fs, k) for k in range(12)], {k: (2, k) for k in range(12)}
    if how == "list":
        return dfs, {0: (2, 3), 1: (1, 0)}
    return {"base": dfs[1], "after": dfs[0]}, {"base": (1, 0), "after": (2, 3)}


CFG = [dict(model=m, n=n, period=t, states=s, factors=f, observed=o, order=r)
       for m, n, t, s, f, o, r in [
           ("two", 2, 0, "frame", None, False, "ordered"),
           ("two_late", 3, 1, "none", ["b", "a"], False, "reversed"),
           ("two", 3, 1, "list", None, False, "ordered"),
           ("three", 2, 1, "dict", ["c", "a"], False, "ordered"),
           ("three", 2, 2, "frame", None, False, "reversed"),
           ("obs", 3, 0, "frame", None, True, "reversed"),
           ("obs", 3, 1, "frame", None, False, "ordered"),
           ("obs", 2, 1, "dict", ["obs1", "b"], True, "by period"),
           ("obs2", 2, 0, "frame", None, True, "by period"),
           ("obs2", 3, 1, "none", ["obs2", "obs1"], False, "reversed"),
           ("obs2", 2, 1, "list", None, True, "reversed"),
           ("two", 2, 1, "many", None, False, "ordered"),
           ("odd_const", 2, 0, "frame", None, True, "reversed"),
           ("overlap", 2, 1, "frame", None, True, "reversed"),
           ("single", 2, 0, "none", None, True, "reversed"),
           ("long12", 2, 10, "frame", None, False, "reversed"),
           ("anch_swapped", 2, 0, "none", None, False, "ordered")]]


def setup(ctx, cfg):
    md, n = models.model(cfg["model"]), cfg["n"]
    vals, st, df = inputs(ctx, md, n)
    T = O.n_periods(md)
    order = {"ordered": None, "reversed": lambda r: r[::-1],
             "by period": lambda r: sorted(r, key=lambda k: (k[1], -k[0]))}[cfg["order"]]
    data = panel(ctx, md, vals, n, ids=[3, 8, 11, 12][:n], periods=[5 + 2 * t for t in range(T)],
                 order=order, extra=["note"])
    arg, scen = given(ctx, md, df, cfg["states"])
    th = theta(ctx, md, free=[])
    kw = dict(data=data, model_dict=md, params=params_df(ctx, O.param_labels(md), th, order=lambda l: l[::-1]),
              period=cfg["period"], factors=cfg["factors"], observed_factors=cfg["observed"],
              states=arg)
    fs = cfg["factors"] or (O.allf(md) if cfg["observed"] else O.latent(md))

    def sample(f, s):
        a, b = scen[s] if f in O.latent(md) else (1, 0)
        return [st[(f, cfg["period"], i)] * a + b for i in range(n)]

    return md, n, df, kw, fs, scen, sample, st


def ends(md, n, st, f, t, scen):
    k = O.allf(md).index(f)
    a, b = scen if f in O.latent(md) else (1, 0)
    at = [st[(f, t, next(i for i in range(n) if (i + k + t) % n == p))] for p in (0, n - 1)]
    return [x * a + b for x in at]


def same_set(ctx, name, got, want, n):
    """Equality as multisets: the elementary symmetric polynomials agree."""
    got = list(got)
    ctx.check(name + ": number", len(got) == n)
    s = ctx.real("generator " + name, 5, 6)
    g = w = 1
    for x, y in zip(got, want):
        g, w = g * (s + x), w * (s + y)
    ctx.equal(name, [g], [w])


@harness(
    "C29", "univariate", configs=CFG, functions=[M + "univariate_densities"],
    bounds="7 model structures, 2-3 individuals, filtered states or 1, 2 or 12 frames of "
           "states, selections of latent and observed factors, row orders of the data; all states "
           "and observed factors symbolic",
    assumptions=["ff.create_distplot is a stand-in that keeps its data",
                 "get_filtered_states returns arbitrary states (its result is decided by C25)"],
)
def univariate(ctx, cfg):
    from skillmodels.visualize_factor_distributions import univariate_densities

    md, n, df, kw, fs, scen, sample, _ = setup(ctx, cfg)
    with states_given(df), estimators(ctx):
        plots = univariate_densities(**kw)
    ctx.check("one plot per factor", sorted(plots) == sorted(fs))
    for f in fs:
        tr = plots[f].data
        ctx.check(f"{f}: scenarios", [t.name for t in tr] == [str(s) for s in scen])
        ctx.check(f"{f}: axis", plots[f].layout.xaxis.title.text == f)
        for t, s in zip(tr, scen):
            same_set(ctx, f"{f} {s}", t.x, sample(f, s), n)


def check_grid(ctx, est, name, points, want_obs, lo, hi, m):
    """points: (i, j) -> (x, y, z) for the i-th x and j-th y."""
    for i in range(m):
        for j in range(m):
            x, y, z = points[i, j]
            wx = lo[0] + (hi[0] - lo[0]) * i / (m - 1)
            wy = lo[1] + (hi[1] - lo[1]) * j / (m - 1)
            ctx.equal(f"{name}: x {i} {j}", [x], [wx])
            ctx.equal(f"{name}: y {i} {j}", [y], [wy])
            ctx.equal(f"{name}: density {i} {j}", [z], [est.value(want_obs, (wx, wy))])


def cells(a):
    return np.array([list(r) for r in a], dtype=object)


@harness(
    "C29", "contours", configs=CFG, functions=[M + "bivariate_density_contours"],
    bounds="as for univariate; 2x2 and 3x3 grids",
    assumptions=["gaussian_kde is a stand-in from which its observations can be read off",
                 "get_filtered_states returns arbitrary states (its result is decided by C25)"],
)
def contours(ctx, cfg):
    from skillmodels.visualize_factor_distributions import bivariate_density_contours

    md, n, df, kw, fs, scen, sample, st = setup(ctx, cfg)
    m = 2 if n == 3 or len(fs) > 2 else 3
    with states_given(df), estimators(ctx) as est:
        plots = bivariate_density_contours(n_points=m, **kw)
    ctx.check("one plot per pair", set(plots) == {(f, g) for f in fs for g in fs if f != g})
    for (f, g), fig in plots.items():
        ctx.check(f"{f} {g}: one trace per scenario", len(fig.data) == len(scen))
        ctx.check(f"{f} {g}: axes", (fig.layout.xaxis.title.text,
                                     fig.layout.yaxis.title.text) == (f, g))
        for tr, s in zip(fig.data, scen):
            ex, ey = (ends(md, n, st, h, cfg["period"], scen[s]) for h in (f, g))
            z = cells(tr.z)
            # plotly: rows of z belong to y, columns to x, unless transpose is set
            z = z if tr.transpose else z.T
            xs, ys = list(tr.x), list(tr.y)
            ctx.check(f"{f} {g}: shape", z.shape == (m, m) and len(xs) == len(ys) == m)
            pts = {(i, j): (xs[i], ys[j], z[i, j]) for i in range(m) for j in range(m)}
            check_grid(ctx, est, f"{f} {g} {s}", pts, list(zip(sample(f, s), sample(g, s))),
                       (ex[0], ey[0]), (ex[1], ey[1]), m)


@harness(
    "C29", "surfaces", configs=[c for c in CFG if c["states"] in ("none", "frame")],
    functions=[M + "bivariate_density_surfaces"],
    bounds="as for univariate (one frame of states); 2x2 and 3x3 grids",
    assumptions=["gaussian_kde is a stand-in from which its observations can be read off",
                 "get_filtered_states returns arbitrary states (its result is decided by C25)"],
)
def surfaces(ctx, cfg):
    from skillmodels.visualize_factor_distributions import bivariate_density_surfaces

    md, n, df, kw, fs, scen, sample, st = setup(ctx, cfg)
    m = 2 if n == 3 or len(fs) > 2 else 3
    with states_given(df), estimators(ctx) as est:
        plots = bivariate_density_surfaces(n_points=m, **kw)
    ctx.check("one plot per pair", set(plots) == {(f, g) for f in fs for g in fs if f != g})
    for (f, g), fig in plots.items():
        (tr,), sc = fig.data, fig.layout.scene
        ctx.check(f"{f} {g}: axes", (sc.xaxis.title.text, sc.yaxis.title.text) == (f, g))
        ex, ey = (ends(md, n, st, h, cfg["period"], (1, 0)) for h in (f, g))
        x, y, z = (np.array([r if np.ndim(r) == 0 else list(r) for r in a], dtype=object)
                   for a in (tr.x, tr.y, tr.z))
        if x.ndim == 1:  # one-dimensional axes: rows of z belong to y, columns to x
            pts = {(i, j): (x[i], y[j], z[j, i]) for i in range(m) for j in range(m)}
        else:
            def one(u, v):
                return u.t is v.t if hasattr(u, "t") else math.isclose(u, v, abs_tol=1e-12)

            swap = not one(x[0, 0], x[0, -1]) and one(x[0, 0], x[-1, 0])
            pts = {(i, j): tuple(a[(j, i) if swap else (i, j)] for a in (x, y, z))
                   for i in range(m) for j in range(m)}
        check_grid(ctx, est, f"{f} {g}", pts, list(zip(sample(f, "none"), sample(g, "none"))),
                   (ex[0], ey[0]), (ex[1], ey[1]), m)


def cell(fig, row, col):
    """(traces, x axis title, y axis title) of a cell."""
    sub = fig.get_subplot(row, col)
    if sub is None:
        return [], None, None
    if hasattr(sub, "xaxis") and hasattr(sub, "yaxis") and not hasattr(sub, "camera"):
        name = sub.xaxis.plotly_name.replace("axis", "")
        tr = [d for d in fig.data if getattr(d, "xaxis", None) == name
              or (name == "x" and d.type != "surface" and d.xaxis is None)]
        return tr, sub.xaxis.title.text, sub.yaxis.title.text
    tr = [d for d in fig.data if d.type == "surface" and (d.scene or "scene") == sub.plotly_name]
    return tr, None, None


@harness(
    "C29", "combined",
    configs=[dict(n=n, surfaces=s, scenarios=k, order=o, mapping=mp) for n, s, k, o, mp in [
        (3, True, 1, None, False), (3, False, 2, None, True),
        (3, True, 1, ["fac c", "a", "fac b"], True), (3, True, 1, ["fac b", "a"], False),
        (2, False, 1, "fac b", True), (2, True, 2, ["fac b", "a"], True)]],
    functions=[M + "combine_distribution_plots"],
    bounds="2-3 factors, 1-2 scenarios, with and without surfaces, orders, subsets and renamed "
           "factors; all plotted values symbolic",
)
def combined(ctx, cfg):
    import plotly.graph_objects as go
    from skillmodels.visualize_factor_distributions import combine_distribution_plots

    fs = ["a", "fac b", "fac c"][:cfg["n"]]
    v = {}

    def sym(*k):
        v[k] = ctx.real("value " + " ".join(map(str, k)), 1, 2)
        return np.array([v[k]], dtype=object)

    kde, cont, surf = {}, {}, {}
    for f in fs:
        kde[f] = go.Figure([go.Scatter(x=sym("kde", f, s), name=f"s{s}")
                            for s in range(cfg["scenarios"])])
        for g in fs:
            if f != g:
                cont[(f, g)] = go.Figure([go.Contour(x=sym("contour", f, g, s))
                                          for s in range(cfg["scenarios"])])
                cont[(f, g)].update_xaxes(title={"text": f})
                cont[(f, g)].update_yaxes(title={"text": g})
                surf[(f, g)] = go.Figure([go.Surface(x=sym("surface", f, g, 0))])
    names = {"a": "Skill A", "fac c": "Skill C"} if cfg["mapping"] else {}
    fig = combine_distribution_plots(
        kde, cont, surf if cfg["surfaces"] else None, factor_order=cfg["order"],
        factor_mapping=dict(names) or None)
    order = cfg["order"] or fs
    order = [order] if isinstance(order, str) else order
    total = 0
    for c, f in enumerate(order):
        for r, g in enumerate(order):
            tr, xt, yt = cell(fig, r + 1, c + 1)
            if r > c:
                want = [v[("contour", f, g, s)] for s in range(cfg["scenarios"])]
                titles = (names.get(f, f), names.get(g, g))
            elif r == c:
                want = [v[("kde", f, s)] for s in range(cfg["scenarios"])]
                titles = (names.get(f, f), "Density")
            else:
                want = [v[("surface", f, g, 0)]] if cfg["surfaces"] else []
                titles = (None, None)
            total += len(want)
            ctx.check(f"cell {r} {c}: number of traces", len(tr) == len(want))
            if want:
                ctx.equal(f"cell {r} {c}", [list(t.x)[0] for t in tr], want)
                ctx.check(f"cell {r} {c}: titles", (xt, yt) == titles)
    ctx.check("nothing else is shown", len(fig.data) == total)
