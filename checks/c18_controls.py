"""C18: a missing control only discards the measurements of its own row."""
import math

import numpy as np

from checks import models, oracle as O
from checks.c13_likelihood import FUN, compose, real_loglike
from checks.common import panel, panel_values, params_df, process, theta
from symx.engine import harness


def spoiled(md, vals, holes):
    """Values after discarding the measurements of rows with missing controls."""
    out = dict(vals)
    for (i, t) in {k[:2] for k in holes}:
        for k in vals:
            if k[:2] == (i, t) and k[2] not in md.get("controls", []) \
                    and k[2] not in O.observed(md):
                out[k] = math.nan
    return out


@harness(
    "C18", "arrays",
    configs=[dict(model="two", cells=[[0, 0], [1, 1], [2, 0]]),
             dict(model="obs", cells=[[0, 0], [1, 1]]),
             dict(model="three", cells=[[1, 0], [1, 2], [0, 1]]),
             dict(model="anch_second", cells=[[2, 0], [0, 1]]),
             dict(model="anch_late", cells=[[2, 0], [0, 1]]),
             dict(model="shared", cells=[[3, 0], [3, 1]])],
    functions=["skillmodels.process_data.process_data"],
    bounds="6 model structures, 5 individuals; which of 2-3 control cells are missing branches, "
           "all values symbolic",
)
def arrays(ctx, cfg):
    from skillmodels.process_data import process_data

    md = models.model(cfg["model"])
    model = process(md)
    n, T, cs = 5, O.n_periods(md), md["controls"]
    holes = [(i, t, cs[(i + t) % len(cs)]) for i, t in cfg["cells"]
             if ctx.flag(f"control missing {i} {t}")]
    vals = panel_values(ctx, md, n, controls_nan=holes)
    meas, cont, obs = (np.array(a) for a in process_data(
        panel(ctx, md, vals, n), model["labels"], model["update_info"], model["anchoring"]))
    want = spoiled(md, vals, holes)
    bad = {k[:2] for k in holes}
    ups = {u[:2]: u for u in O.updates(md)}
    for k, key in enumerate(model["update_info"].index):
        ctx.equal(f"{key}", meas[k], [want[(i, key[0], ups[key][4])] for i in range(n)])
    for t in range(T):
        for i in range(n):
            if (i, t) not in bad:
                ctx.equal(f"controls {t} {i}", cont[t, i],
                          [1 if c == "constant" else vals[(i, t, c)] for c in O.controls(md)])
            if O.observed(md):
                ctx.equal(f"observed {t} {i}", obs[t, i], [vals[(i, t, c)]
                                                           for c in O.observed(md)])


@harness(
    "C18", "likelihood",
    configs=[dict(model="two", cells=[[0, 0], [1, 1]]), dict(model="obs", cells=[[0, 0]]),
             dict(model="lin_obs", cells=[[1, 0], [2, 1]]),
             dict(model="anch_second", cells=[[2, 0]]),
             dict(model="mix2", cells=[[0, 0], [1, 1]])],
    functions=FUN,
    bounds="5 model structures, 4 individuals; missing control cells branch, every parameter and "
           "data value symbolic",
)
def likelihood(ctx, cfg):
    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP)
    n, cs = 4, md["controls"]
    holes = [(i, t, cs[0]) for i, t in cfg["cells"] if ctx.flag(f"control missing {i} {t}")]
    vals = panel_values(ctx, md, n, controls_nan=holes)
    th = theta(ctx, md)
    out = real_loglike(ctx, md, panel(ctx, md, vals, n), params_df(ctx, O.param_labels(md), th))
    ctx.no_nan("finite", out["contributions"])
    clean = {k: (0 if k in holes else v) for k, v in spoiled(md, vals, holes).items()}
    steps = compose(ctx, md, clean, th, n)
    ctx.equal("contributions", out["contributions"],
              [sum(s[i] for s in steps) for i in range(n)])
