"""C26: plotted transition equations are the model's transition functions."""
import numpy as np
import pandas as pd

from checks import models, oracle as O
from checks.common import obj, panel, panel_values, params_df, theta
from symx.engine import harness

FUN = ["skillmodels.visualize_transition_equations.get_transition_plots"]


class states_given:
    """The filtered states are arbitrary here (C25 decides what they are)."""

    def __init__(self, df):
        self.df = df

    def __enter__(self):
        import skillmodels.filtered_states as fs
        import skillmodels.visualize_factor_distributions as d
        import skillmodels.visualize_transition_equations as v

        self.mods = [m for m in (fs, v, d) if hasattr(m, "get_filtered_states")]
        self.orig = [m.get_filtered_states for m in self.mods]
        out = {k: {"states": self.df if k[0] == "a" else self.df.iloc[:0], "state_ranges": None}
               for k in ("anchored_states", "unanchored_states")}
        for m in self.mods:
            m.get_filtered_states = lambda *a, **k: out

    def __exit__(self, *a):
        for m, o in zip(self.mods, self.orig):
            m.get_filtered_states = o


def inputs(ctx, md, n):
    """States per (factor, period, individual); different order of individuals per factor."""
    T, fs = O.n_periods(md), O.latent(md)
    vals = panel_values(ctx, md, n)
    st = {}
    for k, f in enumerate(O.allf(md)):
        for t in range(T):
            for i in range(n):
                pos = (i + k + t) % n
                st[(f, t, i)] = ctx.real(f"state {f} {t} {i}", 1 + pos, 1.5 + pos) - n / 2
                if f in O.observed(md):
                    vals[(i, t, f)] = st[(f, t, i)]
    rows = [(t, i) for t in range(T) for i in range(n)]
    df = pd.DataFrame({"period": [t for t, _ in rows], "id": [i for _, i in rows]})
    for f in fs:
        col = np.empty(len(rows), dtype=obj(ctx))
        for r, (t, i) in enumerate(rows):
            col[r] = st[(f, t, i)]
        df[f] = col
    return vals, st, df


def quantile(ctx, xs, q):
    """Linear interpolation of values that are given in ascending order."""
    pos = q * (len(xs) - 1)
    lo = int(pos)
    if lo + 1 >= len(xs):
        return xs[lo]
    return xs[lo] + (xs[lo + 1] - xs[lo]) * ctx.pin(pos - lo)


def ascending(ctx, md, st, f, t, n):
    k = O.allf(md).index(f)
    return [st[(f, t, next(i for i in range(n) if (i + k + t) % n == pos))] for pos in range(n)]


def curves(fig):
    return [(list(d.x), list(d.y), d.name) for d in fig.data]


def run(ctx, md, n, par, vals, df, period, **kw):
    from skillmodels.visualize_transition_equations import get_transition_plots

    with states_given(df):
        return get_transition_plots(model_dict=md, params=par, data=panel(ctx, md, vals, n),
                                    period=period, **kw)


def ranges_for(ctx, md, given):
    if not given:
        return None, None
    val, out = {}, {}
    for f in O.allf(md):
        T = O.n_periods(md)
        a = np.empty((T, 2), dtype=obj(ctx))
        for t in range(T):
            a[t, 0] = val[(f, t, 0)] = ctx.real(f"from {f} {t}", -3, -2)
            a[t, 1] = val[(f, t, 1)] = ctx.real(f"to {f} {t}", 2, 3)
        out[f] = pd.DataFrame(a, columns=["minimum", "maximum"],
                              index=pd.Index(range(T), name="period"))
    return val, out


@harness(
    "C26", "quantiles",
    configs=[dict(model=m, n=n, period=t, q=q, given=g) for m, n, t, q, g in [
        ("two", 3, 0, [0.5], False), ("two_late", 3, 1, [0.25, 0.5], False),
        ("two_late", 3, 0, [0.75, 0.1], True), ("obs", 3, 0, [0.5, 1.0], False),
        ("obs2", 3, 1, [0.25], False), ("three", 3, 1, [0.5], True),
        ("anch_swapped", 3, 0, [0.5], False), ("custom2", 3, 0, [0.25, 0.75], False),
        ("custom4", 2, 0, [0.5], False), ("odd_const", 2, 0, [0.5], False),
        ("overlap", 2, 0, [0.5], False),
        ("custom3", 3, 1, [0.5], False), ("mix2", 2, 0, [0.0, 0.5], False),
        ("one_quad", 2, 0, 0.5, True), ("long12", 2, 10, [0.5], False),
        ("two", 3, 0, [0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 1.0, 0.0], False),
        ("four", 2, 1, [0.5], True)]],
    thorough=[dict(model="anch_late", n=3, period=1, q=[0.25, 0.5, 0.75], given=False)],
    functions=FUN,
    bounds="14 model structures, 2-3 individuals, 3 grid points, 1-2 and 12 quantiles; filtered states, "
           "observed factors, state ranges and all parameters symbolic (for each factor the order "
           "of the individuals is fixed)",
    assumptions=["get_filtered_states returns arbitrary states (its result is decided by C25)"],
)
def quantiles(ctx, cfg):
    md, n, t = models.model(cfg["model"]), cfg["n"], cfg["period"]
    vals, st, df = inputs(ctx, md, n)
    th = theta(ctx, md)
    par = params_df(ctx, O.param_labels(md), th, order=lambda l: l[::-1])
    rng, arg = ranges_for(ctx, md, cfg["given"])
    qs = cfg["q"] if isinstance(cfg["q"], list) else [cfg["q"]]
    plots = run(ctx, md, n, par, vals, df, t, state_ranges=arg, n_points=3,
                quantiles_of_other_factors=cfg["q"])
    ctx.check("one plot per pair", set(plots) == {
        (i, o) for i in O.allf(md) for o in O.latent(md)})
    for (inp, outp), fig in plots.items():
        cs = curves(fig)
        ctx.check(f"{inp} {outp}: one curve per quantile", len(cs) == len(qs))
        asc = {f: ascending(ctx, md, st, f, t, n) for f in O.allf(md)}
        lo, hi = (rng[(inp, t, 0)], rng[(inp, t, 1)]) if rng else (asc[inp][0], asc[inp][-1])
        p = {k: th[("transition", t, outp, k)] for k in O.trans_params(md, outp)}
        for (xs, ys, name), q in zip(cs, qs):
            if len(qs) > 1:
                ctx.check(f"{inp} {outp}: name of quantile {q}", float(name) == q)
            ctx.check(f"{inp} {outp}: points", len(xs) == 3 and len(ys) == 3)
            x = {f: quantile(ctx, asc[f], q) for f in O.allf(md)}
            for k in range(3):
                x[inp] = lo + (hi - lo) * k / 2
                ctx.equal(f"{inp} {q} input {k}", [xs[k]], [x[inp]])
                ctx.equal(f"{inp}->{outp} {q} output {k}", [ys[k]], [O.trans(ctx, md, outp, x, p)])


@harness(
    "C26", "average",
    configs=[dict(model=m, n=n, period=t, given=g) for m, n, t, g in [
        ("two", 2, 0, True), ("two_late", 3, 1, True), ("obs", 2, 0, True),
        ("three", 2, 1, True), ("custom2", 2, 0, True), ("one", 2, 0, False)]],
    functions=FUN,
    bounds="6 model structures, 2-3 individuals, 3 grid points; all individuals are averaged over; "
           "states, observed factors and parameters symbolic",
    assumptions=["get_filtered_states returns arbitrary states (its result is decided by C25)"],
)
def average(ctx, cfg):
    md, n, t = models.model(cfg["model"]), cfg["n"], cfg["period"]
    vals, st, df = inputs(ctx, md, n)
    th = theta(ctx, md)
    par = params_df(ctx, O.param_labels(md), th, order=lambda l: l[1:] + l[:1])
    rng, arg = ranges_for(ctx, md, cfg["given"])
    plots = run(ctx, md, n, par, vals, df, t, state_ranges=arg, n_points=3, n_draws=n,
                quantiles_of_other_factors=None)
    for (inp, outp), fig in plots.items():
        (xs, ys, _), = curves(fig)
        asc = ascending(ctx, md, st, inp, t, n)
        lo, hi = (rng[(inp, t, 0)], rng[(inp, t, 1)]) if rng else (asc[0], asc[-1])
        p = {k: th[("transition", t, outp, k)] for k in O.trans_params(md, outp)}
        ctx.check(f"{inp} {outp}: points", len(xs) == 3 and len(ys) == 3)
        for k in range(3):
            g = lo + (hi - lo) * k / 2
            tot = 0
            for i in range(n):
                x = {f: st[(f, t, i)] for f in O.allf(md)}
                x[inp] = g
                tot = tot + O.trans(ctx, md, outp, x, p)
            ctx.equal(f"{inp} input {k}", [xs[k]], [g])
            ctx.equal(f"{inp}->{outp} output {k}", [ys[k]], [tot / n])


@harness(
    "C26", "refusals",
    configs=[dict(model="two", n=2), dict(model="two_late", n=2)],
    functions=FUN,
    bounds="2 model structures; period 0, 1, 2 or 3",
)
def refusals(ctx, cfg):
    md, n = models.model(cfg["model"]), cfg["n"]
    vals, st, df = inputs(ctx, md, n)
    par = params_df(ctx, O.param_labels(md), theta(ctx, md, free=[]))
    t = ctx.choice("period", [0, 1, 2, 3])
    try:
        run(ctx, md, n, par, vals, df, t, n_points=2, quantiles_of_other_factors=[0.5])
        raised = False
    except ValueError:
        raised = True
    ctx.check("refused iff there is no transition out of the period",
              raised == (t >= O.n_periods(md) - 1))


@harness(
    "C26", "combined",
    configs=[dict(rows=r, cols=c, mapping=m, missing=x, curves=k) for r, c, m, x, k in [
        (None, None, False, False, 1), (["b", "a"], ["o", "a", "b"], True, False, 2),
        (["a", "b"], ["b"], False, False, 1), ("b", ["a", "o"], True, False, 1),
        (["b"], "o", False, False, 2), (None, ["b", "o"], True, True, 1)]],
    functions=["skillmodels.visualize_transition_equations.combine_transition_plots"],
    bounds="2 output and 3 input factors, orders, subsets and renamed factors, a missing plot, 1-2 "
           "curves; all plotted values symbolic",
)
def combined(ctx, cfg):
    import plotly.graph_objects as go
    from checks.c29_distribution_plots import cell
    from skillmodels.visualize_transition_equations import combine_transition_plots

    ins, outs = ["a", "b", "o"], ["a", "b"]
    plots, v = {}, {}
    for o in outs:
        for i in ins:
            if cfg["missing"] and (i, o) == ("b", "a"):
                continue
            for k in range(cfg["curves"]):
                v[(i, o, k)] = ctx.real(f"value {i} {o} {k}", 1, 2)
            plots[(i, o)] = go.Figure([go.Scatter(y=np.array([v[(i, o, k)]], dtype=object))
                                       for k in range(cfg["curves"])])
    names = {"a": "Skill A", "o": "Income"} if cfg["mapping"] else {}
    fig = combine_transition_plots(plots, column_order=cfg["cols"], row_order=cfg["rows"],
                                   factor_mapping=dict(names) or None)
    rows, cols = cfg["rows"] or outs, cfg["cols"] or ins
    rows, cols = ([x] if isinstance(x, str) else x for x in (rows, cols))
    total = 0
    for r, o in enumerate(rows):
        for c, i in enumerate(cols):
            tr, xt, yt = cell(fig, r + 1, c + 1)
            want = [v[(i, o, k)] for k in range(cfg["curves"]) if (i, o) in plots]
            total += len(want)
            ctx.check(f"cell {r} {c}: number of curves", len(tr) == len(want))
            if want:
                ctx.equal(f"cell {r} {c}", [list(t.y)[0] for t in tr], want)
            ctx.check(f"cell {r} {c}: input", xt == names.get(i, i))
            if c == 0:
                ctx.check(f"cell {r} {c}: output", yt == names.get(o, o))
    ctx.check("nothing else is shown", len(fig.data) == total)
