"""C25: filtered states: mixture averages after the last measurement of each period."""
import numpy as np
import pandas as pd

from checks import models, oracle as O
from checks.c13_likelihood import FUN, details
from checks.c16_debug import table
from checks.common import no_ranges, obj, panel, panel_values, params_df, theta
from symx.engine import harness


@harness(
    "C25", "states",
    configs=[dict(model="two", n=2), dict(model="two_late", n=2), dict(model="mix2", n=2),
             dict(model="mix3", n=2), dict(model="obs", n=2), dict(model="anch", n=2),
             dict(model="anch_second", n=2), dict(model="anch_swapped", n=2),
             dict(model="anch_noconst", n=2), dict(model="mixobs", n=3), dict(model="three", n=2),
             dict(model="two", n=3, nan=[[0, 0, "ya1"], [2, 1, "yb1"]]),
             dict(model="same_meas", n=2), dict(model="odd_const", n=2), dict(model="overlap", n=2),
             dict(model="single", n=2), dict(model="single_mix", n=2), dict(model="hole_anch", n=2),
             dict(model="long12", n=2), dict(model="mix12", n=2), dict(model="two", n=12)],
    thorough=[dict(model="three_norm", n=2), dict(model="custom3", n=3), dict(model="wide12", n=2),
              dict(model="meas12", n=2), dict(model="four", n=2)],
    functions=FUN + ["skillmodels.filtered_states.get_filtered_states",
                     "skillmodels.filtered_states.anchor_states_df",
                     "skillmodels.process_debug_data.process_debug_data"],
    bounds="15 model structures, 2-3 and 12 individuals; every parameter and data value symbolic; "
           "individuals carry arbitrary fixed ids",
)
def states(ctx, cfg):
    from skillmodels.filtered_states import get_filtered_states

    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP)
    n, nm, fs, T = cfg["n"], O.n_mix(md), O.latent(md), O.n_periods(md)
    vals = panel_values(ctx, md, n, nan=[tuple(k) for k in cfg.get("nan", [])])
    th = theta(ctx, md)
    par = params_df(ctx, O.param_labels(md), th, order=lambda l: l[1::2] + l[::2])
    with no_ranges(ctx):
        out = get_filtered_states(model_dict=md, data=panel(ctx, md, vals, n), params=par)
    last = {}
    for d in details(ctx, md, vals, th, n):
        old = last.get(d["period"])
        if d["purpose"] == "measurement" or old is None or old["purpose"] != "measurement":
            last[d["period"]] = d
    for kind in ("unanchored_states", "anchored_states"):
        st = out[kind]["states"]
        tabs = {f: table(st, ["period", "id"], f) for f in fs}
        ctx.check(f"rows {kind}", set(tabs[fs[0]]) == {(t, i) for t in range(T)
                                                       for i in range(n)})
        for t in range(T):
            for i in range(n):
                w = [ctx.exp(last[t]["logw"][i, m]) for m in range(nm)]
                for k, f in enumerate(fs):
                    v = sum(w[m] * last[t]["states"][i, m, k] for m in range(nm))
                    if nm == 1:
                        v = last[t]["states"][i, 0, k] * w[0]
                    s, c = O.anchor_of(md, th, t, f) if kind[0] == "a" else (1, 0)
                    ctx.equal(f"{kind} {f} {t} {i}", [tabs[f][(t, i)]], [c + s * v])


@harness(
    "C25", "ranges",
    configs=[dict(n=2, T=2, k=1), dict(n=3, T=1, k=1), dict(n=2, T=1, k=2)],
    thorough=[dict(n=3, T=2, k=1), dict(n=4, T=1, k=1)],
    functions=["skillmodels.process_debug_data.create_state_ranges"],
    bounds="1-2 factors, 1-2 periods, 2-3 individuals (thorough 4); values symbolic, every order "
           "relation between them explored",
    max_paths=3000,
)
def ranges(ctx, cfg):
    from skillmodels.process_debug_data import create_state_ranges

    n, T, fs = cfg["n"], cfg["T"], ["b", "a"][: cfg["k"]]
    rows = [(t, i) for i in range(n) for t in range(T)][::-1]
    data = {"id": [i for _, i in rows], "period": [t for t, _ in rows]}
    val = {}
    for f in fs:
        col = np.empty(len(rows), dtype=obj(ctx))
        for r, (t, i) in enumerate(rows):
            val[(f, t, i)] = col[r] = ctx.real(f"{f}{t}{i}", -2, 2)
        data[f] = col
    out = create_state_ranges(pd.DataFrame(data), fs)
    ctx.check("factors", set(out) == set(fs))
    for f in fs:
        ctx.check("periods", list(out[f].index) == list(range(T)))
        for t in range(T):
            lo, hi = out[f].loc[t, "minimum"], out[f].loc[t, "maximum"]
            vs = [val[(f, t, i)] for i in range(n)]
            ctx.record(f"range {f} {t}", [lo, hi])
            ctx.check(f"min {f} {t}", ctx.all([lo <= v for v in vs]))
            ctx.check(f"max {f} {t}", ctx.all([hi >= v for v in vs]))
            ctx.check(f"attained {f} {t}", ctx.any([lo == v for v in vs]))
            ctx.check(f"attained max {f} {t}", ctx.any([hi == v for v in vs]))
