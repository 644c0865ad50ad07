"""Several properties once more through the public likelihood functions."""
import math

from checks import models, oracle as O
from checks.c13_likelihood import FUN, compose, real_loglike, recursion, textbook
from checks.c16_debug import missing, table
from checks.c17_alignment import present
from checks.c21_simulation import ASSUME, FUN as SIM, simulate, verify
from checks.common import no_ranges, panel, panel_values, params_df, theta
from symx.engine import harness

E2E = FUN + ["skillmodels.kalman_filters.*"]
TXT = ("whole log likelihood against the textbook formulas; data and the listed parameter "
       "groups symbolic, the other parameters fixed numbers; 2-3 individuals, 2 periods")
REC = "whole log likelihood; every parameter and data value symbolic; 2-3 individuals"

harness("C01", "likelihood", functions=E2E, bounds=TXT,
        configs=[dict(model="one", free=["all"]), dict(model="two", free=["controls"]),
                 dict(model="shared_lin", free=["controls", "initial_states"])],
        thorough=[dict(model="two", free=["controls", "initial_states"])])(textbook)
harness("C03", "likelihood", functions=E2E, bounds=TXT,
        configs=[dict(model="mix", free=["controls", "mixture_weights"]),
                 dict(model="mix", free=["initial_states"]),
                 dict(model="mixobs", free=["controls", "initial_states"])],
        thorough=[dict(model="mix", free=["controls", "mixture_weights", "initial_states"])],
        )(textbook)
harness("C04", "likelihood", functions=E2E, bounds=TXT,
        configs=[dict(model="lin_obs", free=["controls", "initial_states", "transition"]),
                 dict(model="one_quad", free=["transition", "initial_states", "controls"]),
                 dict(model="mixobs", free=["controls"])],
        thorough=[dict(model="three_lin", free=["controls"])])(textbook)
harness("C05", "likelihood", functions=E2E, bounds=TXT,
        configs=[dict(model="one_quad", free=["initial_states", "controls"], kappa=k)
                 for k in (1, 3, 5)] +
                [dict(model="lin_obs", free=["initial_states", "controls"], kappa=1)],
        )(textbook)
harness("C07", "likelihood", functions=E2E, bounds=REC,
        configs=[dict(model=m, n=2) for m in
                 ("two_late", "three", "custom2", "obs2", "odd_names", "quote")],
        thorough=[dict(model=m, n=3) for m in ("three_norm", "custom3", "stages4", "ces_mix")],
        )(recursion)
harness("C08", "likelihood", functions=E2E, bounds=REC,
        configs=[dict(model=m, n=2) for m in
                 ("anch", "anch_second", "anch_both", "anch_swapped", "anch_noconst",
                  "anch_late", "anch_mix", "hole_anch")],
        )(recursion)
harness("C09", "likelihood", functions=E2E, bounds=REC,
        configs=[dict(model=m, n=2) for m in
                 ("two", "shared", "mix2", "obs", "anch_second", "same_meas", "odd_names")],
        )(recursion)


@harness(
    "C02", "likelihood",
    configs=[
        dict(model="two", n=3, flags=[[0, 0, "ya1"], [1, 1, "yb1"], [2, 0, "yb1"]]),
        dict(model="mix2", n=3, flags=[[0, 0, "ya1"], [1, 1, "ya1"]]),
        dict(model="shared", n=3, flags=[[0, 0, "y2"], [1, 0, "y3"]]),
        dict(model="anch", n=3, flags=[[0, 0, "Q"], [1, 1, "ya1"]]),
        dict(model="mixobs", n=3, flags=[[1, 0, "ya1"], [1, 1, "ya1"]]),
        dict(model="one3", n=3, flags=[[0, 0, "ya1"], [0, 0, "ya2"], [2, 2, "ya1"]])],
    thorough=[dict(model="three", n=3, flags=[[0, 0, "ya1"], [0, 0, "ya2"], [2, 2, "yb1"],
                                              [1, 1, "yb1"]])],
    functions=E2E + ["skillmodels.process_debug_data.process_debug_data"],
    bounds="6 model structures, 3 individuals, 2-3 periods; every combination of the 2-3 (thorough "
           "4) listed cells present or missing; every parameter and data value symbolic",
)
def gaps(ctx, cfg):
    from skillmodels.likelihood_function import get_maximization_inputs

    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP)
    n, nm, fs = cfg["n"], O.n_mix(md), O.latent(md)
    full = panel_values(ctx, md, n)
    vals = dict(full)
    for k in map(tuple, cfg["flags"]):
        if ctx.flag(f"missing {k}"):
            vals[k] = math.nan
    par = params_df(ctx, O.param_labels(md), theta(ctx, md))
    tabs = []
    for v in (vals, full):
        with no_ranges(ctx):
            out = get_maximization_inputs(
                model_dict=md, data=panel(ctx, md, v, n))["debug_loglike"](par)
        con = out["all_contributions"]
        tabs.append((list(con["measurement"]), list(con["period"]),
                     table(con, ["period", "measurement", "id"], "contribution"),
                     {f: table(out["post_update_states"],
                               ["period", "measurement", "id", "mixture"], f) for f in fs}))
    (names, periods, con, sts), (_, _, con_full, sts_full) = tabs
    order = list(dict.fromkeys(zip(periods, names)))
    touched = {i for i in range(n) if any(
        isinstance(vals[k], float) and math.isnan(vals[k]) and k[0] == i for k in map(tuple, cfg["flags"]))}
    for pos, (t, v) in enumerate(order):
        for i in range(n):
            if i not in touched:
                ctx.equal(f"untouched contribution {t} {v} {i}", [con[(t, v, i)]],
                          [con_full[(t, v, i)]])
                for m in range(nm):
                    ctx.equal(f"untouched states {t} {v} {i} {m}",
                              [sts[f][(t, v, i, m)] for f in fs],
                              [sts_full[f][(t, v, i, m)] for f in fs])
            elif missing(vals, md, (t, v, i)):
                ctx.equal(f"no contribution {t} {v} {i}", [con[(t, v, i)]], [0])
                if pos and order[pos - 1][0] == t:
                    for m in range(nm):
                        ctx.equal(f"states unchanged {t} {v} {i} {m}",
                                  [sts[f][(t, v, i, m)] for f in fs],
                                  [sts[f][(*order[pos - 1], i, m)] for f in fs])


@harness(
    "C02", "all missing",
    configs=[dict(model="two", i=0), dict(model="mix2", i=2), dict(model="anch_second", i=1),
             dict(model="obs", i=1)],
    functions=E2E,
    bounds="4 model structures, 3 individuals; one individual has no measurement at all; every "
           "parameter and data value symbolic",
)
def all_missing(ctx, cfg):
    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP)
    full = panel_values(ctx, md, 3)
    par = params_df(ctx, O.param_labels(md), theta(ctx, md))
    meas = {c for *_, c in O.updates(md)}
    vals = {k: math.nan if k[0] == cfg["i"] and k[2] in meas else v for k, v in full.items()}
    a = real_loglike(ctx, md, panel(ctx, md, vals, 3), par)["contributions"]
    b = real_loglike(ctx, md, panel(ctx, md, full, 3), par)["contributions"]
    for i in range(3):
        ctx.equal(f"contribution {i}", [a[i]], [0 if i == cfg["i"] else b[i]])


@harness(
    "C17", "likelihood",
    configs=[dict(model=m, form=f, n=3) for m, f in [
        ("two", "shuffled"), ("two", "strings"), ("two", "unbalanced2"), ("two", "late_rows"),
        ("two", "filtered_person"), ("obs", "labels"), ("obs2", "shuffled"),
        ("anch_swapped", "strings"), ("anch_second", "unbalanced"), ("mixobs", "shuffled"),
        ("three", "labels")]],
    thorough=[dict(model=m, form=f, n=3) for m in ("three", "anch_late")
              for f in ("shuffled", "labels", "strings", "unbalanced", "filtered_early")
              if (m, f) != ("anch_late", "unbalanced")],
    functions=FUN,
    bounds="8 model structures, 3 individuals, 2-3 periods, 7 ways to present the panel; every "
           "parameter and data value symbolic",
)
def panels(ctx, cfg):
    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP)
    n = cfg["n"]
    vals = panel_values(ctx, md, n)
    df, order, drop = present(ctx, md, vals, n, cfg["form"])
    meas = {c for *_, c in O.updates(md)}
    seen = {}
    for (i, t, c), v in vals.items():
        gone = (i, t) in drop
        seen[(order.index(i), t, c)] = (math.nan if c in meas else 0) if gone else v
    th = theta(ctx, md)
    out = real_loglike(ctx, md, df, params_df(ctx, O.param_labels(md), th))
    steps = compose(ctx, md, seen, th, n)
    ctx.equal("contributions", out["contributions"],
              [sum(s[i] for s in steps) for i in range(n)])


@harness(
    "C17", "simulation",
    configs=[dict(model=m, form=f, n=n) for m, f, n in [
        ("two", "shuffled", 3), ("obs", "labels", 2), ("one3", "strings", 2),
        ("obs2", "shuffled", 3), ("anch_second", "strings", 2), ("two", "late_rows", 2)]],
    thorough=[dict(model=m, form="shuffled", n=3) for m in ("three", "custom2", "anch_late")],
    functions=SIM,
    bounds="5 model structures, 2-3 individuals, 4 ways to present the panel of controls and "
           "observed factors; every parameter, data value and draw symbolic",
    assumptions=ASSUME,
)
def simulated_panels(ctx, cfg):
    md = models.model(cfg["model"])
    n = cfg["n"]
    verify(ctx, md, n, *simulate(ctx, md, n, form=cfg["form"]))


@harness(
    "C10", "simulate",
    configs=[dict(model=m, order=o) for m, o in [
        ("two", "by name2"), ("mix2", "sorted"), ("anch_second", "interleaved"),
        ("obs", "sorted")]],
    functions=SIM,
    bounds="4 model structures, 3 row orders plus an extra column, 1-2 individuals; every "
           "parameter, data value and draw symbolic",
    assumptions=ASSUME,
)
def simulate_order(ctx, cfg):
    from checks.c10_table import ORDERS

    md = models.model(cfg["model"])
    n = 1
    verify(ctx, md, n, *simulate(ctx, md, n, order=ORDERS[cfg["order"]]))


@harness(
    "C14", "states",
    configs=[dict(model="two"), dict(model="mix2"), dict(model="obs"), dict(model="anch_second")],
    thorough=[dict(model="three"), dict(model="custom2"), dict(model="mix3")],
    functions=FUN + ["skillmodels.filtered_states.get_filtered_states"],
    bounds="4 model structures, 3 individuals; every parameter and data value symbolic",
)
def independent_states(ctx, cfg):
    from skillmodels.filtered_states import get_filtered_states

    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP)
    par = params_df(ctx, O.param_labels(md), theta(ctx, md))
    vals = panel_values(ctx, md, 3)
    new = {k: ctx.real(f"other {k}", 7, 8) if k[0] == 1 else v for k, v in vals.items()}
    moved = {(2 - k[0], k[1], k[2]): v for k, v in vals.items()}
    tabs = []
    for v in (vals, new, moved):
        with no_ranges(ctx):
            r = get_filtered_states(model_dict=md, data=panel(ctx, md, v, 3), params=par)
        tabs.append({f: table(r["unanchored_states"]["states"], ["period", "id"], f)
                     for f in O.latent(md)})
    for f in O.latent(md):
        for t in range(O.n_periods(md)):
            for i in range(3):
                if i != 1:
                    ctx.equal(f"{f} {t} {i}", [tabs[1][f][(t, i)]], [tabs[0][f][(t, i)]])
                ctx.equal(f"moved {f} {t} {i}", [tabs[2][f][(t, 2 - i)]], [tabs[0][f][(t, i)]])


@harness(
    "C25", "reported ranges",
    configs=[dict(model="one", what="filtered"), dict(model="anch", what="filtered"),
             dict(model="one", what="debug"), dict(model="anch", what="simulated"),
             dict(model="one", what="simulated")],
    functions=FUN + ["skillmodels.filtered_states.get_filtered_states",
                     "skillmodels.simulate_data.simulate_dataset",
                     "skillmodels.process_debug_data.*"],
    bounds="2 model structures, 2 individuals, 2 periods; data (or draws) symbolic, parameters "
           "fixed numbers; every order relation between the states explored",
    max_paths=3000,
)
def reported_ranges(ctx, cfg):
    from skillmodels.filtered_states import get_filtered_states
    from skillmodels.likelihood_function import get_maximization_inputs

    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP)
    fs, n, what = O.latent(md), 2, cfg["what"]
    if what == "simulated":
        _, _, _, out = simulate(ctx, md, n, free=[], ranges=True)
    else:
        par = params_df(ctx, O.param_labels(md), theta(ctx, md, free=[]))
        data = panel(ctx, md, panel_values(ctx, md, n), n)
        if what == "filtered":
            out = get_filtered_states(model_dict=md, data=data, params=par)
        else:
            d = get_maximization_inputs(model_dict=md, data=data)["debug_loglike"](par)
            out = {"unanchored_states": {"states": d["filtered_states"],
                                         "state_ranges": d["state_ranges"]}}
    for kind, res in out.items():
        if kind == "measurements":
            continue
        for f in fs:
            tab = table(res["states"], ["period", "id"], f)
            rng = res["state_ranges"][f]
            for t in range(O.n_periods(md)):
                vs = [tab[(t, i)] for i in range(n)]
                lo, hi = rng.loc[t, "minimum"], rng.loc[t, "maximum"]
                ctx.record(f"range {kind} {f} {t}", [lo, hi])
                ctx.check(f"lower {kind} {f} {t}", ctx.all([lo <= v for v in vs]
                                                           + [ctx.any([lo == v for v in vs])]))
                ctx.check(f"upper {kind} {f} {t}", ctx.all([hi >= v for v in vs]
                                                           + [ctx.any([hi == v for v in vs])]))
