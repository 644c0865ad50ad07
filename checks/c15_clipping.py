"""C15: soft clipping stays within its bounds, keeps order and is applied per update."""
import numpy as np

from checks import models, oracle as O
from checks.c13_likelihood import FUN, details, real_loglike
from checks.common import arr, panel, panel_values, params_df, theta
from symx.engine import harness

SHAPES = [[2], [1, 3], [2, 2]]


def formula(ctx, x, lo, hi, kl, kh):
    if lo is not None:
        x = ctx.log(ctx.exp(kl * x) + ctx.exp(kl * lo)) / kl
    if hi is not None:
        x = -ctx.log(ctx.exp(-kh * x) + ctx.exp(-kh * hi)) / kh
    return x


@harness(
    "C15", "formula",
    configs=[dict(shape=s, bounds=b) for s in SHAPES for b in ("none", "lower", "upper", "both")],
    functions=["skillmodels.clipping.soft_clipping"],
    bounds="arrays of up to 4 elements in 1-2 dimensions; elements, bounds and hardness symbolic",
)
def softmax(ctx, cfg):
    import jax.numpy as jnp
    from skillmodels.clipping import soft_clipping

    x = ctx.reals("x", tuple(cfg["shape"]), -5, 5)
    lo = ctx.real("lower", -6, 0) if cfg["bounds"] in ("lower", "both") else None
    hi = ctx.real("upper", 1, 6) if cfg["bounds"] in ("upper", "both") else None
    kl, kh = ctx.real("kl", 0.5, 4), ctx.real("kh", 0.5, 4)

    def j(v):
        return None if v is None else jnp.array(v)

    got = np.array(soft_clipping(arr=jnp.array(x), lower=j(lo), upper=j(hi),
                                 lower_hardness=j(kl), upper_hardness=j(kh)))
    ctx.check("shape", got.shape == x.shape)
    for ix in np.ndindex(*x.shape):
        ctx.equal(f"{ix}", [got[ix]], [formula(ctx, x[ix], lo, hi, kl, kh)])


@harness(
    "C15", "likelihood",
    configs=[dict(model="two", lo=-50, hi=None, kl=1, kh=1),
             dict(model="two", lo=None, hi=2, kl=1, kh=3),
             dict(model="mix", lo=-20, hi=1, kl=2, kh=5),
             dict(model="anch", lo=-3, hi=None, kl=4, kh=1),
             dict(model="two", lo=-3, hi=2, kl=None, kh=None),
             dict(model="two", lo=-3, hi=None, kl=2, kh=None, none=True),
             dict(model="one", lo=-50, hi=4, kl=1, kh=1, nan=[[0, 1, "ya1"], [1, 1, "ya1"]])],
    functions=FUN + ["skillmodels.clipping.soft_clipping"],
    bounds="4 model structures, 2 individuals, 7 settings of the clipping options; every "
           "parameter and data value symbolic",
)
def likelihood(ctx, cfg):
    md = models.model(cfg["model"])
    md["estimation_options"].update(
        clipping_lower_bound=cfg["lo"], clipping_upper_bound=cfg["hi"],
        clipping_lower_hardness=cfg["kl"], clipping_upper_hardness=cfg["kh"])
    for k in ("clipping_lower_hardness", "clipping_upper_hardness"):
        if md["estimation_options"][k] is None:
            md["estimation_options"].pop(k)  # the documented default is 1
    if cfg.get("none"):
        md["estimation_options"].pop("clipping_upper_bound")  # the default is no upper bound
    kl, kh = cfg["kl"] or 1, cfg["kh"] or 1
    n = 2
    vals = panel_values(ctx, md, n, nan=[tuple(k) for k in cfg.get("nan", [])])
    th = theta(ctx, md)
    out = real_loglike(ctx, md, panel(ctx, md, vals, n), params_df(ctx, O.param_labels(md), th))
    import jax.numpy as jnp
    from skillmodels.clipping import soft_clipping

    steps = details(ctx, md, vals, th, n, debug=False)
    want = [sum(np.array(soft_clipping(
        arr=jnp.array(arr(ctx, [d["ll"][i]])), lower=cfg["lo"], upper=cfg["hi"],
        lower_hardness=kl, upper_hardness=kh))[0] for d in steps)
        for i in range(n)]
    ctx.equal("contributions", out["contributions"], want)
    ctx.equal("value", [out["value"]], [sum(want)])
