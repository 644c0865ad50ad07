"""C09: the parameter vector: one entry per parameter, used as what its label says."""
import numpy as np

from checks import models, oracle as O
from checks.common import arr, params_df, params_index, process, theta
from symx.engine import harness

ALL = ["one", "one3", "two", "two_late", "shared", "obs", "obs2", "mix2", "mix3", "anch_second",
       "anch_both", "anch_swapped", "three", "three_norm", "custom", "custom2", "custom3", "custom4",
       "odd_names", "quote", "same_meas", "gap", "odd_const", "overlap", "no_options",
       "single", "single_mix"]


@harness(
    "C09", "labels",
    configs=[dict(model=m) for m in ALL + ["long12", "mix12", "wide12", "meas12", "four"]],
    thorough=[dict(model=m, n_obs=3) for m in ALL],
    functions=["skillmodels.params_index.*", "skillmodels.process_model.process_model",
               "skillmodels.parse_params.create_parsing_info",
               "skillmodels.parse_params.parse_params"],
    bounds="27 model structures (up to 12 factors, periods, mixtures and measurements); every entry of the parameter vector symbolic; 1-2 individuals",
)
def labels(ctx, cfg):
    import jax.numpy as jnp
    from skillmodels.parse_params import create_parsing_info, parse_params

    md = models.model(cfg["model"])
    model = process(md)
    n_obs = cfg.get("n_obs", 1 + len(cfg["model"]) % 2)
    idx = params_index(model)
    want = O.param_labels(md)
    ctx.check("level names", list(idx.names) == ["category", "period", "name1", "name2"])
    ctx.check("each parameter once", sorted(map(repr, list(idx))) == sorted(map(repr, want)))
    th = theta(ctx, md)
    df = params_df(ctx, list(idx), th)
    info = create_parsing_info(idx, model["update_info"], model["labels"], model["anchoring"])
    states, chols, logw, par = parse_params(
        jnp.array(arr(ctx, list(df["value"]))), info, model["dimensions"], model["labels"], n_obs)
    states, chols, logw = np.array(states), np.array(chols), np.array(logw)
    fs, T, nm = O.latent(md), O.n_periods(md), O.n_mix(md)

    for o in range(n_obs):
        for m in range(nm):
            mix = f"mixture_{m}"
            ctx.equal(f"initial states {o}{m}", states[o, m],
                      [th[("initial_states", 0, mix, f)] for f in fs])
            low = O.chol_params(md, th, m)
            ctx.equal(f"initial cholcov {o}{m}", chols[o, m].T, arr(ctx, low))
        ctx.equal(f"log weights {o}", logw[o],
                  [ctx.log(th[("mixture_weights", 0, f"mixture_{m}", "-")]) for m in range(nm)])

    ui = model["update_info"]
    ups = O.updates(md)
    got_ups = list(ui.index)
    ctx.check("one update per measurement and anchored factor",
              sorted(map(repr, got_ups)) == sorted(repr(u[:2]) for u in ups))
    ctx.check("updates ordered by period", [p for p, _ in got_ups] == sorted(
        p for p, _ in got_ups))
    by = {u[:2]: u for u in ups}
    load, cont, sds = (np.array(par[k]) for k in ("loadings", "controls", "meas_sds"))
    cs = O.controls(md)
    for k, (t, v) in enumerate(got_ups):
        u = by[(t, v)]
        ctx.check(f"purpose {t} {v}", ui.iloc[k]["purpose"] == u[3])
        ctx.equal(f"loadings {t} {v}", load[k],
                  [th[("loadings", t, v, f)] if f in u[2] else 0 for f in fs])
        ctx.equal(f"controls {t} {v}", cont[k], [th[("controls", t, v, c)] for c in cs])
        ctx.equal(f"sd {t} {v}", [sds[k]], [th[("meas_sds", t, v, "-")]])
    shocks = np.array(par["shock_sds"])
    ctx.check("one row of shock sds per transition", shocks.shape == (T - 1, len(fs)))
    for t in range(T - 1):
        ctx.equal(f"shock sds {t}", shocks[t], [th[("shock_sds", t, f, "-")] for f in fs])
        for f in fs:
            names = model["transition_info"]["param_names"][f]
            ctx.equal(f"transition {t} {f}", np.array(par["transition"][f])[t],
                      arr(ctx, [th[("transition", t, f, n)] for n in names]))
