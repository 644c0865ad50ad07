"""C14: individuals are independent; the value is the sum of their contributions."""
import numpy as np

from checks import models, oracle as O
from checks.c13_likelihood import FUN, real_loglike
from checks.common import panel, panel_values, params_df, theta
from symx.engine import harness


@harness(
    "C14", "independent",
    configs=[dict(model="two", n=3), dict(model="mix2", n=3), dict(model="obs", n=3),
             dict(model="anch_second", n=3), dict(model="three", n=3),
             dict(model="shared", n=4, flags=[[1, 0, "y2"]]), dict(model="mixobs", n=3),
             dict(model="two", n=3, clip="default"), dict(model="two", n=3, clip="both"),
             dict(model="mix", n=3, clip="both")],
    thorough=[dict(model="two_late", n=5), dict(model="custom2", n=4), dict(model="mix3", n=4)],
    functions=FUN,
    bounds="8 model structures, 3 individuals (thorough 5), one of them with branching missing "
           "cells; every parameter and data value symbolic; with and without clipping",
)
def independent(ctx, cfg):
    md = models.model(cfg["model"])
    clip = cfg.get("clip", "off")
    if clip == "off":
        md["estimation_options"].update(models.NOCLIP)
    elif clip == "both":
        md["estimation_options"].update(
            clipping_lower_bound=-50, clipping_upper_bound=30, clipping_lower_hardness=2)
    n = cfg["n"]
    par = params_df(ctx, O.param_labels(md), theta(ctx, md))
    vals = panel_values(ctx, md, n, flags=[tuple(k) for k in cfg.get("flags", [])])
    a = real_loglike(ctx, md, panel(ctx, md, vals, n), par)
    ctx.equal("value is the sum", [a["value"]], [sum(list(a["contributions"]))])

    # all data of individual 1 replaced: the others keep their contributions
    new = dict(vals)
    for k in vals:
        if k[0] == 1 and not (isinstance(vals[k], float) and vals[k] != vals[k]):
            new[k] = ctx.real(f"other {k}", 7, 8)
    b = real_loglike(ctx, md, panel(ctx, md, new, n), par)
    for i in range(n):
        if i != 1:
            ctx.equal(f"individual {i} unaffected", [b["contributions"][i]],
                      [a["contributions"][i]])
    # individuals renamed in another order: contributions move along
    perm = list(range(n))[::-1]
    c = real_loglike(ctx, md, panel(ctx, md, vals, n, ids=perm), par)
    for i in range(n):
        ctx.equal(f"individual {i} renamed", [c["contributions"][perm[i]]],
                  [a["contributions"][i]])
    ctx.equal("value after renaming", [c["value"]], [a["value"]])
    # individual n-1 left out
    d = real_loglike(ctx, md, panel(ctx, md, vals, n - 1), par)
    ctx.equal("left out", d["contributions"], a["contributions"][: n - 1])
