"""C24: calls leave their arguments alone and do not depend on earlier calls."""
from copy import deepcopy

import numpy as np
import pandas as pd

from checks import models, oracle as O
from checks.c13_likelihood import FUN
from checks.c21_simulation import ASSUME, simulate
from checks.c23_reductions import call, table
from checks.common import no_ranges, panel, panel_values, params_df, theta
from symx.engine import harness


def snap(x):
    """Value of an argument that later changes of the argument cannot reach."""
    if isinstance(x, pd.DataFrame):
        return ("frame", list(x.columns), [tuple(np.atleast_1d(i)) if not isinstance(i, tuple)
                                           else i for i in x.index],
                list(x.index.names), {c: list(x[c]) for c in x.columns},
                [str(d) for d in x.dtypes])
    if isinstance(x, dict):
        return ("dict", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    return ("leaf", x)


def unchanged(ctx, label, before, x):
    def walk(a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "frame":
            if a[1:4] != b[1:4] or a[5] != b[5]:
                return False
            for c in a[1]:
                ctx.equal(f"{label} column {c}", arr(b[4][c]), arr(a[4][c]))
            return True
        if a[0] == "dict":
            return [k for k, _ in a[1]] == [k for k, _ in b[1]] and all(
                [walk(u, v) for (_, u), (_, v) in zip(a[1], b[1])])
        if a[0] in ("list", "tuple"):
            return len(a[1]) == len(b[1]) and all([walk(u, v) for u, v in zip(a[1], b[1])])
        if a[1] is b[1]:
            return True
        return type(a[1]) is type(b[1]) and a[1] == b[1]

    def arr(v):
        keep = [x for x in v if not isinstance(x, str)]
        return np.array(keep + [0], dtype=object if ctx.symbolic else float)

    ctx.check(f"{label} unchanged", walk(before, snap(x)))


@harness(
    "C24", "likelihood",
    configs=[dict(model=m, n=n, nan=na, drop=dr) for m, n, na, dr in [
        ("two", 2, [], []), ("mix2", 2, [], []), ("anch_swapped", 2, [], []),
        ("obs2", 3, [[0, 1, "ya1"]], []), ("three", 2, [], []),
        ("anch_second", 3, [[0, 0, "x1"], [1, 1, "yb1"]], []),
        ("two", 3, [[0, 0, "x1"]], [[1, 1]])]],
    functions=FUN + ["skillmodels.filtered_states.get_filtered_states"],
    bounds="6 models, 2-3 individuals, with missing cells, missing controls and absent rows; "
           "every parameter and data value symbolic; two parameter vectors evaluated in turn",
)
def likelihood(ctx, cfg):
    from skillmodels.filtered_states import get_filtered_states
    from skillmodels.likelihood_function import get_maximization_inputs

    md = models.model(cfg["model"])
    n = cfg["n"]
    md["estimation_options"].update(models.NOCLIP)
    cells = {tuple(k) for k in cfg["nan"]}
    ctl = {k for k in cells if k[2] in md.get("controls", [])}
    vals = panel_values(ctx, md, n, nan=cells - ctl, controls_nan=ctl)
    df = panel(ctx, md, vals, n, ids=[7, 3, 5][:n], drop={tuple(d) for d in cfg["drop"]},
               extra=["note"], order=lambda r: r[::-1])
    th = theta(ctx, md)
    par = params_df(ctx, O.param_labels(md), th, order=lambda l: l[2:] + l[:2])
    par["comment"] = "keep"
    th2 = {l: ctx.pin(3) / 4 + v / 4 for l, v in th.items()}
    par2 = params_df(ctx, O.param_labels(md), th2)
    args = {"model_dict": md, "data": df, "params": par}
    before = {k: snap(v) for k, v in args.items()}
    inp = get_maximization_inputs(model_dict=md, data=df)
    first = inp["loglike"](par)
    inp["loglike"](par2)
    with no_ranges(ctx):
        inp["debug_loglike"](par2)
        inp["debug_loglike"](par)
        get_filtered_states(model_dict=md, data=df, params=par)
    again = inp["loglike"](par)
    for k, v in args.items():
        unchanged(ctx, k, before[k], v)
    ctx.equal("value of a repeated evaluation", [again["value"]], [first["value"]])
    ctx.equal("contributions of a repeated evaluation", again["contributions"],
              first["contributions"])
    fresh = get_maximization_inputs(model_dict=md, data=df)["loglike"](par)
    ctx.equal("contributions of a fresh set of inputs", fresh["contributions"],
              first["contributions"])


@harness(
    "C24", "simulation",
    configs=[dict(model="two", n=2, policies=[["b", 0]]), dict(model="obs2", n=2, policies=[]),
             dict(model="two_late", n=1, policies=[["a", 1], ["b", 0], ["a", 1]]),
             dict(model="anch_second", n=2, policies=[["a", 0]])],
    functions=["skillmodels.simulate_data.simulate_dataset"],
    bounds="4 models, 1-2 individuals, 0-3 policies; parameters, data and draws symbolic",
    assumptions=ASSUME,
)
def simulation(ctx, cfg):
    md = models.model(cfg["model"])
    ps = [{"factor": f, "period": t, "effect_size": ctx.real(f"effect {k}", -2, 2),
           "standard_deviation": 0} for k, (f, t) in enumerate(cfg["policies"])]
    watch = {}
    before = {"model_dict": snap(md), "policies": snap(ps)}
    simulate(ctx, md, cfg["n"], policies=ps or None, watch=watch)
    unchanged(ctx, "model_dict", before["model_dict"], md)
    unchanged(ctx, "policies", before["policies"], ps)
    for k, (b, v) in watch.items():
        unchanged(ctx, k, b, v)


@harness(
    "C24", "editing",
    configs=[dict(model=m, op=o) for m, o in [
        ("three", ["remove_factors", ["a"]]), ("three", ["extract_factors", "b"]),
        ("three_norm", ["remove_measurements", ["ya2", "yc1"]]), ("three", ["remove_controls", "x1"]),
        ("anch_late", ["remove_factors", ["a", "c"]]),
        ("two_late", ["switch_translog_to_linear", None]),
        ("two_late", ["switch_linear_to_translog", None]),
        ("three_norm", ["reduce_n_periods", 2]), ("mixed_stages", ["extract_factors", ["a"]])]],
    functions=["skillmodels.utilities.*"],
    bounds="9 edits; parameter values symbolic",
)
def editing(ctx, cfg):
    import skillmodels.utilities as u

    md = models.model(cfg["model"])
    par = table(ctx, md, shuffle=4)
    par["comment"] = "keep"
    b_md, b_par, b_op = snap(md), snap(par), snap(cfg["op"])
    new, new_par = call(md, cfg["op"], par)
    unchanged(ctx, "model_dict", b_md, md)
    unchanged(ctx, "params", b_par, par)
    ctx.check("argument unchanged", snap(cfg["op"]) == b_op)
    # what is returned is independent of what was passed in
    new_par["value"] = 0.0
    for d in new["factors"].values():
        d["measurements"].append(["extra"])
        d["measurements"][0].append("extra")
        for v in d.get("normalizations", {}).values():
            v[0]["extra"] = 1
    new["estimation_options"]["extra"] = 1
    unchanged(ctx, "model_dict after changing the result", b_md, md)
    unchanged(ctx, "params after changing the result", b_par, par)
    common = list(par.index[::2])
    other = pd.DataFrame({"value": list(ctx.reals("other", (len(common),), 2, 3))},
                         index=pd.MultiIndex.from_tuples(common, names=par.index.names))
    two = other.iloc[:2].copy(deep=True)
    b_two = snap(two)
    b_other = snap(other)
    u.update_parameter_values(par, [other, two])
    u.update_parameter_values(par, other)
    unchanged(ctx, "second other of update_parameter_values", b_two, two)
    unchanged(ctx, "params of update_parameter_values", b_par, par)
    unchanged(ctx, "other of update_parameter_values", b_other, other)


@harness(
    "C24", "history",
    configs=[dict(model=m) for m in ("two", "mix2", "anch_swapped", "obs2", "two_late")],
    functions=FUN + ["skillmodels.filtered_states.get_filtered_states"],
    bounds="5 models, 2 individuals; tables, data and specifications that are changed in place "
           "between calls; every parameter and data value symbolic",
)
def history(ctx, cfg):
    """What is computed depends on what the arguments hold now, not on what they held before."""
    from skillmodels.filtered_states import get_filtered_states
    from skillmodels.likelihood_function import get_maximization_inputs

    def states(p, d, m):
        with no_ranges(ctx):
            out = get_filtered_states(model_dict=m, data=d, params=p)
        return out["unanchored_states"]["states"][O.latent(m)].to_numpy()

    md, n = models.model(cfg["model"]), 2
    md["estimation_options"].update(models.NOCLIP)
    vals = panel_values(ctx, md, n)
    df = panel(ctx, md, vals, n)
    th = theta(ctx, md)
    labels = O.param_labels(md)
    th2 = {l: ctx.pin(3) / 4 + v / 4 for l, v in th.items()}
    par = params_df(ctx, labels, th)
    inp = get_maximization_inputs(md, df)
    one = inp["loglike"](par)["contributions"]
    s_one = states(par, df, md)
    # the same table holds other values
    par["value"] = params_df(ctx, labels, th2)["value"]
    two = inp["loglike"](par)["contributions"]
    fresh = get_maximization_inputs(models.model(cfg["model"]) | {
        "estimation_options": dict(md["estimation_options"])}, df.copy())
    ctx.equal("after changing the table", two,
              fresh["loglike"](params_df(ctx, labels, th2))["contributions"])
    s_two = states(par, df, md)
    # the same frame holds other data
    meas = sorted({m for f in md["factors"].values() for p in f["measurements"] for m in p})
    for m in meas:
        df[m] = [v * ctx.pin(1) / 2 for v in df[m]]
    three = get_maximization_inputs(md, df)["loglike"](par)["contributions"]
    other = {k: v * ctx.pin(1) / 2 if k[2] in meas else v for k, v in vals.items()}
    df2 = panel(ctx, md, other, n)
    md2 = models.model(cfg["model"])
    md2["estimation_options"].update(models.NOCLIP)
    ctx.equal("after changing the data", three, get_maximization_inputs(md2, df2)["loglike"](
        params_df(ctx, labels, th2))["contributions"])
    # the inputs that were built before keep the data they were built with
    ctx.equal("inputs built before", inp["loglike"](par)["contributions"], two)
    s_three = states(par, df, md)
    # the same specification holds another model
    md["factors"] = dict(list(md["factors"].items())[::-1])
    md["estimation_options"]["sigma_points_scale"] = 3
    md2["factors"] = dict(list(md2["factors"].items())[::-1])
    md2["estimation_options"]["sigma_points_scale"] = 3
    th3 = theta(ctx, md2)
    p3 = params_df(ctx, O.param_labels(md2), th3)
    ctx.equal("after changing the specification",
              get_maximization_inputs(md, df)["loglike"](p3)["contributions"],
              get_maximization_inputs(md2, df2)["loglike"](p3)["contributions"])
    # and back again
    md["factors"] = dict(list(md["factors"].items())[::-1])
    md["estimation_options"].pop("sigma_points_scale")
    par["value"] = params_df(ctx, labels, th)["value"]
    df = panel(ctx, md, vals, n)
    ctx.equal("after changing everything back",
              get_maximization_inputs(md, df)["loglike"](par)["contributions"], one)
    ctx.equal("states after changing everything back", states(par, df, md), s_one)
    par["value"] = params_df(ctx, labels, th2)["value"]
    ctx.equal("states after changing the table", states(par, df, md), s_two)
    ctx.equal("states after changing the data", states(par, df2, md), s_three)


@harness(
    "C24", "reports",
    configs=[dict(model=m, what=w) for m, w in [
        ("obs2", "correlations"), ("shared", "correlations"), ("two_late", "transitions"),
        ("obs", "transitions"), ("obs2", "densities"), ("two", "densities"),
        ("obs", "joint densities"), ("two", "joint densities")]],
    functions=["skillmodels.correlation_heatmap.get_*_corr",
               "skillmodels.visualize_transition_equations.get_transition_plots",
               "skillmodels.visualize_factor_distributions.univariate_densities"],
    bounds="5 models, 3 individuals; data, states and parameters symbolic",
    assumptions=["get_filtered_states returns arbitrary states (its result is decided by C25)"],
)
def reports(ctx, cfg):
    import skillmodels.correlation_heatmap as ch
    import skillmodels.visualize_factor_distributions as vd
    import skillmodels.visualize_transition_equations as vt
    from checks.c26_transition_plots import inputs, ranges_for, states_given
    from checks.c29_distribution_plots import estimators

    md, n = models.model(cfg["model"]), 3
    vals, st, states = inputs(ctx, md, n)
    df = panel(ctx, md, vals, n, ids=[9, 4, 6], order=lambda r: r[::-1], extra=["note"])
    th = theta(ctx, md, free=[])
    par = params_df(ctx, O.param_labels(md), th, order=lambda l: l[2:] + l[:2])
    ranges = ranges_for(ctx, md, True)[1]
    factors, periods = O.latent(md)[::-1], [1, 0]
    args = {"model_dict": md, "data": df, "params": par, "states": states, "ranges": ranges,
            "factors": factors, "periods": periods, "quantiles": [0.25, 0.5],
            "layout": {"paper_bgcolor": "white"}, "style": {"line_width": 2},
            "scenarios": {"u": states, "w": states}}
    before = {k: snap(v) for k, v in args.items()}
    a = dict(data=df, model_dict=md, factors=factors, periods=periods)
    if cfg["what"] == "correlations":
        first = ch.get_measurements_corr(**a)
        ch.get_quasi_scores_corr(**a)
        ch.get_scores_corr(params=par, **a)
        ctx.equal("again", ch.get_measurements_corr(**a).to_numpy(), first.to_numpy())
    elif cfg["what"] == "transitions":
        with states_given(states):
            for _ in range(2):
                vt.get_transition_plots(
                    model_dict=md, params=par, data=df, period=0, state_ranges=ranges,
                    quantiles_of_other_factors=args["quantiles"], n_points=3,
                    layout_kwargs=args["layout"])
    elif cfg["what"] == "joint densities":
        with states_given(states), estimators(ctx):
            for _ in range(2):
                vd.bivariate_density_contours(
                    data=df, model_dict=md, params=par, period=0, factors=factors, n_points=2,
                    states=args["scenarios"], contour_kwargs=args["style"],
                    layout_kwargs=args["layout"])
                vd.bivariate_density_surfaces(
                    data=df, model_dict=md, params=par, period=0, factors=factors, n_points=2,
                    observed_factors="observed_factors" in md, states=states,
                    layout_kwargs=args["layout"])
    else:
        with states_given(states), estimators(ctx):
            for obs in (False, True):
                for s in (states, [states, states]):
                    vd.univariate_densities(
                        data=df, model_dict=md, params=par, period=0, factors=None,
                        observed_factors=obs, states=s)
    for k, v in args.items():
        unchanged(ctx, k, before[k], v)


@harness(
    "C24", "figures",
    configs=[dict(what=w, mapping=mp) for w in ("distributions", "transitions", "heatmap")
             for mp in (False, True)],
    functions=["skillmodels.visualize_factor_distributions.combine_distribution_plots",
               "skillmodels.visualize_transition_equations.combine_transition_plots",
               "skillmodels.correlation_heatmap.plot_correlation_heatmap"],
    bounds="figures of 2 factors combined twice in different orders, 3x3 tables; all plotted "
           "values symbolic",
)
def figures(ctx, cfg):
    import plotly.graph_objects as go
    from skillmodels.correlation_heatmap import plot_correlation_heatmap
    from skillmodels.visualize_factor_distributions import combine_distribution_plots
    from skillmodels.visualize_transition_equations import combine_transition_plots

    dt = object if ctx.symbolic else float
    fs = ["a", "b"]

    def sym(*k):
        return np.array([ctx.real("value " + " ".join(map(str, k)), -1, 1)], dtype=dt)

    def parts(fig):
        """What a figure shows, with the plotted values as they are."""
        return ("dict", [
            ("traces", ("list", [snap({k: list(np.ravel(v)) if k in ("x", "y", "z") else v
                                       for k, v in t.to_plotly_json().items()})
                                 for t in fig.data])),
            ("layout", snap(fig.layout.to_plotly_json()))])

    def same(label, a, b):
        def walk(u, v):
            if u[0] != v[0]:
                return False
            if u[0] == "dict":
                return [k for k, _ in u[1]] == [k for k, _ in v[1]] and all(
                    [walk(p, q) for (_, p), (_, q) in zip(u[1], v[1])])
            if u[0] in ("list", "tuple"):
                return len(u[1]) == len(v[1]) and all([walk(p, q) for p, q in zip(u[1], v[1])])
            if isinstance(u[1], (bool, str, type(None))) or isinstance(v[1], (bool, str,
                                                                               type(None))):
                return u[1] is v[1] or u[1] == v[1]
            ctx.equal(label, [u[1]], [v[1]])
            return True

        ctx.check(label, walk(a, b))

    names = {"a": "Skill A"} if cfg["mapping"] else None
    given = {"factor_mapping": names, "layout_kwargs": {"paper_bgcolor": "white"},
             "legend_kwargs": {"orientation": "h"}, "title_kwargs": {"text": "T"}}
    figs = {}
    if cfg["what"] == "distributions":
        kde = {f: go.Figure([go.Scatter(x=sym("kde", f), name="s")]) for f in fs}
        cont, surf = {}, {}
        for f, g in (fs, fs[::-1]):
            cont[(f, g)] = go.Figure([go.Contour(x=sym("contour", f, g), showlegend=True)])
            cont[(f, g)].update_xaxes(title={"text": f})
            cont[(f, g)].update_yaxes(title={"text": g})
            surf[(f, g)] = go.Figure([go.Surface(x=sym("surface", f, g))])
        for i, d in enumerate((kde, cont, surf)):
            figs.update({(i, k): v for k, v in d.items()})
        given["factor_order"] = ["b", "a"]

        def make():
            return combine_distribution_plots(kde, cont, surf, **given)
    elif cfg["what"] == "transitions":
        figs = {(f, g): go.Figure([go.Scatter(x=sym("x", f, g), y=sym("y", f, g),
                                              showlegend=True)]) for f in fs for g in fs}
        given.update(column_order=["b", "a"], row_order=["b", "a"])
        plots = dict(figs)

        def make():
            return combine_transition_plots(plots, **given)
    else:
        rs = [sym(i)[0] for i in range(3)]
        corr = pd.DataFrame(np.array([[ctx.pin(1), rs[0], rs[1]], [rs[0], ctx.pin(1), rs[2]],
                                      [rs[1], rs[2], ctx.pin(1)]], dtype=dt),
                            index=list("abc"), columns=list("abc"))
        given = {"corr": corr, "zmax": 1, "heatmap_kwargs": {"opacity": 1},
                 "layout_kwargs": {"paper_bgcolor": "white"}, "rounding": 9,
                 "show_upper_triangle": cfg["mapping"], "show_diagonal": False,
                 "trim_heatmap": True}

        def make():
            return plot_correlation_heatmap(**given)
    before, looks = {k: snap(v) for k, v in given.items()}, {k: parts(v) for k, v in figs.items()}
    first = parts(make())
    for k, v in given.items():
        unchanged(ctx, k, before[k], v)
    for k, v in figs.items():
        same(f"figure {k} unchanged", looks[k], parts(v))
    same("the same call once more", first, parts(make()))
