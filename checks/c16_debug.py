"""C16: the debug output agrees with the likelihood and labels everything correctly."""
import math

import numpy as np

from checks import models, oracle as O
from checks.c13_likelihood import FUN, details
from checks.common import no_ranges, panel, panel_values, params_df, theta
from symx.engine import harness


def table(df, keys, value):
    """key tuple -> value; a duplicated key is an error."""
    out = {}
    for k, v in zip(zip(*[list(df[c]) for c in keys]), list(df[value])):
        if k in out:
            raise KeyError(f"duplicate rows {k}")
        out[k] = v
    return out


def gone(v):
    return math.isnan(v) if isinstance(v, (float, np.floating)) else v.isnan()


def missing(vals, md, key):
    t, variable, i = key
    col = {v: c for s, v, _, _, c in O.updates(md) if s == t}[variable]
    v = vals[(i, t, col)]
    return isinstance(v, float) and math.isnan(v)


@harness(
    "C16", "debug",
    configs=[dict(model="two", n=2), dict(model="two_late", n=2), dict(model="shared", n=2),
             dict(model="mix2", n=2), dict(model="mix3", n=2), dict(model="mixobs", n=3),
             dict(model="anch", n=2), dict(model="anch_swapped", n=2), dict(model="obs2", n=2),
             dict(model="three", n=2), dict(model="odd_names", n=2),
             dict(model="hole_anch", n=2),
             dict(model="two", n=3, nan=[[0, 0, "ya1"], [2, 1, "yb1"]]),
             dict(model="mix2", n=3, flags=[[1, 0, "ya1"], [0, 1, "ya1"]]),
             dict(model="two", n=2, clip=True), dict(model="long12", n=2),
             dict(model="mix12", n=2), dict(model="single", n=2), dict(model="single_mix", n=2), dict(model="meas12", n=2), dict(model="two", n=12)],
    thorough=[dict(model="three_norm", n=2), dict(model="mix3", n=4), dict(model="custom3", n=3), dict(model="wide12", n=2),
              dict(model="four", n=2)],
    functions=FUN + ["skillmodels.process_debug_data.process_debug_data"],
    assumptions=["create_state_ranges is replaced by a stub here and decided in C25"],
    bounds="15 model structures (1-3 and 12 mixtures, 2-3 and 12 periods), 2-3 and 12 individuals, fixed "
           "and branching missing cells; every parameter and data value symbolic",
)
def debug(ctx, cfg):
    from skillmodels.likelihood_function import get_maximization_inputs

    md = models.model(cfg["model"])
    if cfg.get("clip"):
        md["estimation_options"].update(clipping_lower_bound=-30, clipping_upper_bound=5)
    else:
        md["estimation_options"].update(models.NOCLIP)
    n, nm, fs = cfg["n"], O.n_mix(md), O.latent(md)
    vals = panel_values(ctx, md, n, nan=[tuple(k) for k in cfg.get("nan", [])],
                        flags=[tuple(k) for k in cfg.get("flags", [])])
    th = theta(ctx, md)
    par = params_df(ctx, O.param_labels(md), th, order=lambda l: l[::-1])
    with no_ranges(ctx):
        inp = get_maximization_inputs(model_dict=md, data=panel(ctx, md, vals, n))
        out = inp["debug_loglike"](par)
        plain = inp["loglike"](par)
    steps = details(ctx, md, vals, th, n)
    ctx.equal("value", [out["value"]], [plain["value"]])
    ctx.equal("contributions", out["contributions"], plain["contributions"])

    con = table(out["all_contributions"], ["period", "measurement", "id"], "contribution")
    res = table(out["residuals"], ["period", "measurement", "id", "mixture"], "residual")
    sds = table(out["residual_sds"], ["period", "measurement", "id", "mixture"], "residual")
    sts = {f: table(out["post_update_states"], ["period", "measurement", "id", "mixture"], f)
           for f in fs}
    keys = {(d["period"], d["variable"], i) for d in steps for i in range(n)}
    full = {k + (m,) for k in keys for m in range(nm)}
    ctx.check("rows of all_contributions", set(con) == keys)
    for name, t in [("residuals", res), ("residual_sds", sds), ("states", sts[fs[0]])]:
        ctx.check(f"rows of {name}", set(t) == full)
    for d in steps:
        for i in range(n):
            k = (d["period"], d["variable"], i)
            ctx.equal(f"contribution {k}", [con[k]], [d["ll"][i]])
            for m in range(nm):
                ctx.equal(f"residual {k} {m}", [res[k + (m,)]], [d["residuals"][i, m]])
                ctx.equal(f"residual sd {k} {m}", [sds[k + (m,)]], [d["residual_sds"][i, m]])
                if missing(vals, md, k):
                    ctx.check(f"no residual without measurement {k} {m}",
                              ctx.all([gone(res[k + (m,)]), gone(sds[k + (m,)])]))
                ctx.equal(f"state {k} {m}", [sts[f][k + (m,)] for f in fs], d["states"][i, m])
    if not cfg.get("clip"):
        for i in range(n):
            ctx.equal(f"sum of contributions {i}", [sum(v for k, v in con.items() if k[2] == i)],
                      [out["contributions"][i]])
