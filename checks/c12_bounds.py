"""C12: bounds on standard deviations and on diagonals of initial covariances, no others."""
import math

import numpy as np

from checks import models, oracle as O
from checks.common import obj, panel, panel_values, params_index, process
from symx.engine import harness

ALL = ["one", "two", "shared", "obs2", "mix2", "mix3", "anch_second", "three", "three_norm",
       "odd_names", "quote", "dashes", "same_meas", "custom2", "single", "single_mix"]


def diag(md, lab):
    return lab[0] == "initial_cholcovs" and lab[3] in {f"{f}-{f}" for f in O.latent(md)}


def is_inf(v, sign):
    return isinstance(v, (float, np.floating)) and math.isinf(v) and v * sign > 0


@harness(
    "C12", "add_bounds",
    configs=[dict(model=m, pre=p) for i, m in enumerate(ALL) for p in [["none", "lower"][i % 2]]]
    + [dict(model="two", pre="lower"), dict(model="dashes", pre="none", perm=True),
       dict(model="three", pre="none", part=True), dict(model="two", pre="lower", part=True)]
    + [dict(model=m, pre="none") for m in ("long12", "mix12", "wide12", "meas12", "four")],
    functions=["skillmodels.constraints.add_bounds", "skillmodels.params_index.*"],
    bounds="19 model structures incl. factor names with hyphens and quotes; the distance and "
           "bounds present beforehand symbolic; two row orders; "
           "tables without the initial means",
)
def bounds(ctx, cfg):
    import pandas as pd
    from skillmodels.constraints import add_bounds

    md = models.model(cfg["model"])
    labels = list(params_index(process(md)))
    if cfg.get("perm"):
        labels = labels[1::2] + labels[::2]
    if cfg.get("part"):
        labels = [l for l in labels if l[0] != "initial_states"]
    idx = pd.MultiIndex.from_tuples(labels, names=["category", "period", "name1", "name2"])
    dist = ctx.real("distance", 0, 1)
    val = np.empty(len(idx), dtype=obj(ctx))
    low = np.empty(len(idx), dtype=obj(ctx))
    for i in range(len(idx)):
        val[i], low[i] = ctx.real(f"v{i}"), ctx.real(f"l{i}")
    df = pd.DataFrame({"value": val}, index=idx)
    if cfg["pre"] == "lower":
        df["lower_bound"] = low
    out = add_bounds(df, dist)
    ctx.check("index", list(out.index) == list(idx))
    ctx.check("columns", sorted(out.columns) == ["lower_bound", "value"])
    ctx.check("input not modified", list(df.columns) == (
        ["value"] if cfg["pre"] == "none" else ["value", "lower_bound"]))
    got = list(out["lower_bound"])
    for i, lab in enumerate(labels):
        if lab[0] in ("meas_sds", "shock_sds") or diag(md, lab):
            ctx.equal(f"bound {lab}", [got[i]], [dist])
        elif cfg["pre"] == "lower":
            ctx.equal(f"kept {lab}", [got[i]], [low[i]])
        else:
            ctx.check(f"free {lab}", is_inf(got[i], -1))
    ctx.equal("values", list(out["value"]), list(val))


@harness(
    "C12", "template",
    configs=[dict(model=m, robust=r, distance=d) for m, r, d in [
        ("one", None, False), ("two", None, True), ("obs", True, True), ("mix2", True, False),
        ("anch_second", False, True), ("two_late", False, False), ("shared", False, True),
        ("single", None, True), ("single_mix", True, False)]],
    functions=["skillmodels.likelihood_function.get_maximization_inputs",
               "skillmodels.process_model.process_model", "skillmodels.constraints.add_bounds"],
    bounds="7 model structures; robust bounds on, off or not mentioned, the distance symbolic or "
           "not mentioned",
)
def template(ctx, cfg):
    from skillmodels.likelihood_function import get_maximization_inputs

    md, n = models.model(cfg["model"]), 2
    want = 0.001
    if cfg["distance"]:
        want = md["estimation_options"]["bounds_distance"] = ctx.real("distance", 0.01, 1)
    if cfg["robust"] is not None:
        md["estimation_options"]["robust_bounds"] = cfg["robust"]
    if cfg["robust"] is False:
        want = 0
    data = panel(ctx, md, panel_values(ctx, md, n, pin=True), n)
    out = get_maximization_inputs(model_dict=md, data=data)["params_template"]
    ctx.check("columns", "upper_bound" not in out.columns)
    low = dict(zip(map(tuple, out.index), out["lower_bound"]))
    ctx.check("index", set(low) == set(O.param_labels(md)))
    for lab, v in low.items():
        if lab[0] in ("meas_sds", "shock_sds") or diag(md, lab):
            ctx.equal(f"bound {lab}", [v], [want])
        else:
            ctx.check(f"free {lab}", is_inf(v, -1))
