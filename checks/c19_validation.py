"""C19: unusable data are refused, usable data are accepted."""
import math

import numpy as np

from checks import models, oracle as O
from checks.common import no_ranges, panel, panel_values, params_df, process, theta
from symx.engine import harness


def missing(v):
    return isinstance(v, float) and v != v


def attempt(df, model, purpose="estimation"):
    from skillmodels.process_data import process_data

    try:
        process_data(df, model["labels"], model["update_info"], model["anchoring"],
                     purpose=purpose)
    except ValueError:
        return True
    return False


@harness(
    "C19", "variance",
    configs=[dict(model="one", n=2, cells=[["ya1", 0, 0], ["ya1", 0, 1], ["ya1", 1, 0],
                                           ["ya1", 1, 1]]),
             dict(model="two", n=2, cells=[["ya1", 0, 0], ["ya1", 0, 1], ["yb1", 1, 0],
                                           ["yb1", 1, 1]]),
             dict(model="anch", n=2, cells=[["Q", 0, 0], ["Q", 0, 1], ["ya1", 1, 1]]),
             dict(model="one", n=3, cells=[["ya1", 1, 0], ["ya1", 1, 1], ["ya1", 1, 2]])],
    thorough=[dict(model="one", n=4, cells=[["ya1", 0, i] for i in range(4)])],
    functions=["skillmodels.process_data.process_data"],
    bounds="3 model structures, 2-3 individuals; 3-4 cells symbolic over one common interval and "
           "possibly missing, so that all coincidences of values are explored",
    max_paths=3000,
)
def variance(ctx, cfg):
    md = models.model(cfg["model"])
    model = process(md)
    n = cfg["n"]
    vals = panel_values(ctx, md, n, pin=True)
    for c, t, i in cfg["cells"]:
        vals[(i, t, c)] = ctx.maybe_nan(f"v {c} {t} {i}", -1, 1)
    for k in vals:
        if not missing(vals[k]) and not ctx.symbolic:
            vals[k] = float(vals[k])
    raised = attempt(panel(ctx, md, vals, n), model)
    bad = []
    for t, v, _, _, col in O.updates(md):
        xs = [vals[(i, t, col)] for i in range(n) if not missing(vals[(i, t, col)])]
        if xs:
            bad.append(ctx.all([x == xs[0] for x in xs[1:]]))
    ctx.check("refused iff a measurement does not vary", ctx.iff(ctx.any(bad), raised))


@harness(
    "C19", "columns",
    configs=[dict(model=m) for m in ("two", "obs", "three", "anch_second", "anch_late",
                                     "same_meas", "overlap")],
    functions=["skillmodels.process_data.process_data"],
    bounds="7 model structures, 4 individuals; every kind of gap (absent column, column missing "
           "in one period, single missing cell) at every variable, period and one individual",
)
def columns(ctx, cfg):
    md = models.model(cfg["model"])
    model = process(md)
    n, T = 4, O.n_periods(md)
    vals = panel_values(ctx, md, n)
    cols = list(dict.fromkeys(k[2] for k in vals))
    col = ctx.choice("column", cols)
    gap = ctx.choice("gap", ["none", "column", "period", "cell", "all"])
    t0 = ctx.choice("period", list(range(T)))
    for k in list(vals):
        if k[2] == col and (gap == "all" or gap == "period" and k[1] == t0
                            or gap == "cell" and k[1] == t0 and k[0] == 2):
            vals[k] = math.nan
    df = panel(ctx, md, vals, n)
    if gap == "column":
        df = df.drop(columns=[col])
    anchor = col in O.anchoring(md)["outcomes"].values()
    try:
        raised = attempt(df, model)
    except KeyError:
        raised = gap == "column" and anchor  # refused by the lookup of the outcome
        ctx.check("KeyError only for an absent outcome", raised)
    if gap == "none":
        want = False
    elif col in O.observed(md):
        want = True
    elif col in md.get("controls", []):
        want = gap != "cell"
    else:
        want = gap == "column"
    ctx.check(f"refused iff unusable ({gap} of {col})", raised == want)
    if col not in md.get("controls", []) and col not in O.observed(md):
        try:
            ok = not attempt(df, model, "simulation")
        except KeyError:
            ok = False
        ctx.check(f"measurements are not needed for simulation ({gap} of {col})", ok)


@harness(
    "C19", "nothing",
    configs=[dict(model=m) for m in ("one", "mix", "anch_both", "custom3", "two", "obs2",
                                     "lin_obs", "overlap", "three")],
    functions=["skillmodels.simulate_data.simulate_dataset"],
    bounds="9 model structures, 1-2 individuals, simulation without a data set; parameters and "
           "draws symbolic",
)
def nothing(ctx, cfg):
    from checks.c21_simulation import Draws
    from skillmodels.simulate_data import simulate_dataset
    from symx import npsym

    md = models.model(cfg["model"])
    n = ctx.choice("individuals", [1, 2])
    par = params_df(ctx, O.param_labels(md), theta(ctx, md))
    npsym.RANDOM["stub"] = Draws(ctx)
    try:
        with no_ranges(ctx):
            simulate_dataset(model_dict=md, params=par, n_obs=n)
        raised = False
    except ValueError:
        raised = True
    finally:
        npsym.RANDOM["stub"] = None
    ctx.check("simulation without data is refused iff there are controls or observed factors",
              raised == bool(md.get("controls") or O.observed(md)))
