"""C08: anchoring uses scale and constant of the same factor in the same period."""
import numpy as np
import pandas as pd

from checks import models, oracle as O
from checks import c04_predict
from checks.common import arr, obj, params_df, params_index, process, theta
from symx.engine import harness

MODELS = ["anch", "anch_second", "anch_both", "anch_swapped", "anch_noconst", "anch_off",
          "three", "anch_late", "anch_mix", "two", "obs", "four"]
FUN = ["skillmodels.process_model._process_anchoring", "skillmodels.process_model.process_model",
       "skillmodels.parse_params.create_parsing_info", "skillmodels.parse_params.parse_params",
       "skillmodels.params_index.get_params_index"]


@harness(
    "C08", "parse",
    configs=[dict(model=m) for m in MODELS],
    thorough=[dict(model=m, n_obs=3) for m in MODELS],
    functions=FUN,
    bounds="12 model structures (1-4 factors, 2-3 periods, 0-2 anchored factors in any order of "
           "declaration, with and without constants, controls and mixtures); every parameter "
           "symbolic",
)
def parse(ctx, cfg):
    import jax.numpy as jnp
    from skillmodels.parse_params import create_parsing_info, parse_params

    md = models.model(cfg["model"])
    model = process(md)
    idx = params_index(model)
    th = theta(ctx, md)
    df = params_df(ctx, list(idx), th)
    info = create_parsing_info(idx, model["update_info"], model["labels"], model["anchoring"])
    *_, par = parse_params(jnp.array(arr(ctx, list(df["value"]))), info, model["dimensions"],
                           model["labels"], cfg.get("n_obs", 1))
    scale = np.array(par["anchoring_scaling_factors"])
    const = np.array(par["anchoring_constants"])
    fs, no = O.latent(md), len(O.observed(md))
    ctx.check("shape", scale.shape == const.shape == (O.n_periods(md), len(fs) + no))
    for t in range(O.n_periods(md)):
        for i, f in enumerate(fs):
            s, c = O.anchor_of(md, th, t, f)
            ctx.equal(f"scale {f} {t}", [scale[t, i]], [s])
            ctx.equal(f"constant {f} {t}", [const[t, i]], [c])
        for i in range(no):
            ctx.equal(f"observed {i} {t}", [scale[t, len(fs) + i], const[t, len(fs) + i]],
                      [1, 0])


@harness(
    "C08", "frame",
    configs=[dict(model=m) for m in MODELS if m not in ("two",)],
    thorough=[dict(model=m, ids=4) for m in MODELS],
    functions=["skillmodels.filtered_states.anchor_states_df"] + FUN,
    bounds="the same structures; 2 individuals (thorough 4), rows and columns of the frame in an "
           "arbitrary fixed permutation; parameters and states symbolic",
)
def frame(ctx, cfg):
    from skillmodels.filtered_states import anchor_states_df

    md = models.model(cfg["model"])
    fs, T, n = O.latent(md), O.n_periods(md), cfg.get("ids", 2)
    labels = O.param_labels(md)
    th = theta(ctx, md)
    par = params_df(ctx, labels, th, order=lambda l: l[1::2] + l[::2])
    rows = [(t, i) for i in range(n) for t in reversed(range(T))]
    st = {(t, i, f): ctx.real(f"s{t}{i}{f}", -3, 3) for t, i in rows for f in fs}
    data = {"id": [i for _, i in rows]}
    for f in reversed(fs):
        col = np.empty(len(rows), dtype=obj(ctx))
        for k, (t, i) in enumerate(rows):
            col[k] = st[(t, i, f)]
        data[f] = col
    data["period"] = [t for t, _ in rows]
    df = pd.DataFrame(data, index=[7 * k for k in range(len(rows))])
    out = anchor_states_df(states_df=df, model_dict=md, params=par)
    ctx.check("columns", list(out.columns) == list(df.columns))
    ctx.check("rows", list(out["id"]) == data["id"] and list(out["period"]) == data["period"]
              and list(out.index) == list(df.index))
    for f in fs:
        want = []
        for t, i in rows:
            s, c = O.anchor_of(md, th, t, f)
            want.append(c + s * st[(t, i, f)])
        ctx.equal(f"anchored {f}", list(out[f]), want)
        ctx.equal(f"input {f}", list(df[f]), [st[(t, i, f)] for t, i in rows])


harness(
    "C08", "law of motion",
    configs=[dict(model="one", n_obs=2, n_mix=1, kappa=2, anch=True),
             dict(model="two", n_obs=1, n_mix=2, kappa=1, anch=True, pin=["chol"]),
             dict(model="obs", n_obs=2, n_mix=1, kappa=2, anch=True, pin=["coef", "chol"]),
             dict(model="mixobs", n_obs=2, n_mix=2, kappa=2, anch=True),
             dict(model="anch_second", n_obs=1, n_mix=1, kappa=2, anch=True, pin=["chol"]),
             dict(model="custom", n_obs=1, n_mix=1, kappa=2, anch=True)],
    thorough=[dict(model="two", n_obs=2, n_mix=2, kappa=2, anch=True),
              dict(model="three", n_obs=1, n_mix=1, kappa=2, anch=True, pin=["chol"])],
    functions=c04_predict.FUN,
    bounds="6 model structures, 1-2 individuals, 1-2 mixtures; scales and constants of both "
           "periods, states and coefficients symbolic",
)(c04_predict.predict)
