"""C07: each factor is moved by its own function, with its own parameters and inputs."""
import numpy as np

from checks import models, oracle as O
from checks.c04_predict import coefficients
from checks.common import arr, process
from symx.engine import harness

ALL = ["one", "two", "two_late", "shared", "obs", "obs2", "mix2", "anch_second", "three",
       "three_norm", "custom", "custom2", "custom3", "custom4", "odd_names", "odd_const", "quote", "long12", "wide12", "four"]


@harness(
    "C07", "wiring",
    configs=[dict(model=m, n=1 + (i % 3)) for i, m in enumerate(ALL)],
    thorough=[dict(model=m, n=4) for m in ALL],
    functions=["skillmodels.process_model._get_transition_info",
               "skillmodels.decorators.*", "skillmodels.transition_functions.*"],
    bounds="19 model structures (up to 12 factors or periods), 1-3 state vectors (thorough: 4); states and coefficients "
           "symbolic",
)
def wiring(ctx, cfg):
    import jax.numpy as jnp

    md = models.model(cfg["model"])
    model = process(md)
    info, labels = model["transition_info"], model["labels"]
    fs, af = O.latent(md), O.allf(md)
    coef = coefficients(ctx, md)
    for f in fs:
        ctx.check(f"parameter names of {f}",
                  sorted(info["param_names"][f]) == sorted(O.trans_params(md, f)))
    tc = {f: jnp.array(arr(ctx, [coef[f][k] for k in info["param_names"][f]])) for f in fs}
    x = ctx.reals("x", (cfg["n"], len(af)), -2, 2)
    got = np.array(info["func"](tc, jnp.array(x)))
    want = np.empty((cfg["n"], len(fs)), dtype=object)
    for i in range(cfg["n"]):
        row = {f: x[i, j] for j, f in enumerate(af)}
        for j, f in enumerate(fs):
            want[i, j] = O.trans(ctx, md, f, row, coef[f])
    ctx.check("factor order", list(labels["latent_factors"]) == fs
              and list(labels["all_factors"]) == af)
    ctx.equal("next states", got, want)
    for j, f in enumerate(fs):
        ind = np.array(info["individual_functions"][f](tc, jnp.array(x)))
        ctx.equal(f"individual {f}", ind.reshape(-1), want[:, j])
