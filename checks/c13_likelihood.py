"""C13: the log likelihood is the Kalman recursion over the model's own equations."""
import numpy as np

from checks import models, oracle as O
from checks.common import (arr, nice, obj, panel, panel_values, params_df, process, theta)
from symx.engine import harness

FUN = ["skillmodels.likelihood_function.get_maximization_inputs",
       "skillmodels.likelihood_function._log_likelihood_jax",
       "skillmodels.likelihood_function._scan_body", "skillmodels.process_data.process_data",
       "skillmodels.parse_params.parse_params", "skillmodels.params_index.get_params_index",
       "skillmodels.process_model.process_model"]


def real_loglike(ctx, md, df, par):
    from skillmodels.likelihood_function import get_maximization_inputs

    return get_maximization_inputs(model_dict=md, data=df)["loglike"](par)


def compose(ctx, md, vals, th, n):
    """Log likelihood per update and individual."""
    return [d["ll"] for d in details(ctx, md, vals, th, n, debug=False)]


def details(ctx, md, vals, th, n, debug=True):
    """The recursion written with the filter steps that C01-C05 verify on their own."""
    import jax.numpy as jnp
    from skillmodels.kalman_filters import calculate_sigma_scaling_factor_and_weights
    from skillmodels.kalman_filters import kalman_predict, kalman_update

    fs, T, nm = O.latent(md), O.n_periods(md), O.n_mix(md)
    model = process(md)
    order = list(model["update_info"].index)
    ups = {u[:2]: u for u in O.updates(md)}
    info = model["transition_info"]
    opt = md["estimation_options"]
    fac, w = calculate_sigma_scaling_factor_and_weights(
        len(fs), opt.get("sigma_points_scale", 2))
    rows = {"states": [], "chols": [], "logw": []}
    for m in range(nm):
        mix = f"mixture_{m}"
        rows["states"].append([th[("initial_states", 0, mix, f)] for f in fs])
        low = O.chol_params(md, th, m)
        rows["chols"].append([[low[j][i] for j in range(len(fs))] for i in range(len(fs))])
        rows["logw"].append(ctx.log(th[("mixture_weights", 0, mix, "-")]))
    states, chols, logw = (jnp.array(arr(ctx, [rows[k]] * n)) for k in rows)
    out = []
    for t in range(T):
        for (p, v) in order:
            if p != t:
                continue
            _, _, lf, purpose, col = ups[(t, v)]
            cont = [[1 if c == "constant" else vals[(i, t, c)] for c in O.controls(md)]
                    for i in range(n)]
            s2, c2, logw, ll, dbg = kalman_update(
                states=states, upper_chols=chols,
                loadings=jnp.array(arr(ctx, [th[("loadings", t, v, f)] if f in lf else 0
                                             for f in fs])),
                control_params=jnp.array(arr(ctx, [th[("controls", t, v, c)]
                                                   for c in O.controls(md)])),
                meas_sd=jnp.array(arr(ctx, th[("meas_sds", t, v, "-")])),
                measurements=jnp.array(arr(ctx, [vals[(i, t, col)] for i in range(n)])),
                controls=jnp.array(arr(ctx, cont)), log_mixture_weights=logw, debug=debug)
            if purpose == "measurement":
                states, chols = s2, c2
            out.append(dict(
                period=t, variable=v, purpose=purpose, ll=np.array(ll),
                states=np.array(states), logw=np.array(logw),
                **{k: np.array(dbg[k]) for k in ("residuals", "residual_sds") if k in dbg}))
        if t < T - 1:
            anch = [[O.anchor_of(md, th, s, f) for f in fs]
                    + [(1, 0)] * len(O.observed(md)) for s in (t, t + 1)]
            obs = np.empty((n, len(O.observed(md))), dtype=obj(ctx))
            for i in range(n):
                for k, c in enumerate(O.observed(md)):
                    obs[i, k] = vals[(i, t, c)]
            states, chols = kalman_predict(
                states=states, upper_chols=chols, sigma_scaling_factor=fac, sigma_weights=w,
                transition_info=info,
                trans_coeffs={f: jnp.array(arr(ctx, [th[("transition", t, f, q)]
                                                     for q in info["param_names"][f]]))
                              for f in fs},
                shock_sds=jnp.array(arr(ctx, [th[("shock_sds", t, f, "-")] for f in fs])),
                anchoring_scaling_factors=jnp.array(arr(ctx, [[a for a, _ in r] for r in anch])),
                anchoring_constants=jnp.array(arr(ctx, [[b for _, b in r] for r in anch])),
                observed_factors=jnp.array(obs))
    return out


CFG = [
    dict(model="one", n=2), dict(model="two", n=3), dict(model="two_late", n=2),
    dict(model="shared", n=2), dict(model="obs", n=2), dict(model="obs2", n=3),
    dict(model="mix2", n=2), dict(model="mix3", n=2), dict(model="mixobs", n=2),
    dict(model="anch", n=2), dict(model="anch_second", n=2), dict(model="anch_both", n=2),
    dict(model="anch_swapped", n=2), dict(model="anch_noconst", n=2),
    dict(model="anch_late", n=2), dict(model="anch_mix", n=2), dict(model="three", n=2),
    dict(model="custom2", n=2), dict(model="custom4", n=2), dict(model="same_meas", n=2),
    dict(model="odd_names", n=2), dict(model="odd_const", n=2), dict(model="overlap", n=2),
    dict(model="single", n=2), dict(model="single_mix", n=3),
    dict(model="quote", n=2), dict(model="two", n=3, kappa=1),
    dict(model="two", n=3, nan=[[0, 0, "ya1"], [1, 1, "yb1"], [2, 1, "ya1"]]),
    dict(model="mix2", n=3, flags=[[0, 0, "ya1"], [1, 1, "ya1"]]),
    dict(model="anch", n=3, flags=[[0, 0, "Q"], [1, 1, "ya1"]]),
    dict(model="one", n=2, nan=[[0, 1, "ya1"], [1, 1, "ya1"]]),
    dict(model="two_gap", n=3, nan=[[0, 1, "ya1"]]),
    dict(model="hole_anch", n=2), dict(model="hole", n=2),
    dict(model="long12", n=2), dict(model="mix12", n=2), dict(model="meas12", n=2),
    dict(model="wide12", n=2), dict(model="four", n=2), dict(model="two", n=12),
]


@harness(
    "C13", "recursion",
    configs=CFG,
    thorough=[dict(model="three_norm", n=3), dict(model="stages4", n=3),
              dict(model="custom3", n=3), dict(model="ces_mix", n=3), dict(model="three", n=4)],
    functions=FUN,
    assumptions=["the update and prediction steps themselves are decided by C01-C07"],
    bounds="30 model structures (1-3 and 12 factors, 2-3 and 12 periods, 1-3 and 12 mixtures, "
           "observed factors, controls, anchoring), 2-3 and 12 individuals (thorough 4) with fixed and branching patterns "
           "of missing measurements; every parameter and every data value symbolic; clipping off",
)
def recursion(ctx, cfg):
    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP)
    if "kappa" in cfg:
        md["estimation_options"]["sigma_points_scale"] = cfg["kappa"]
    n = cfg["n"]
    vals = panel_values(ctx, md, n, nan=[tuple(k) for k in cfg.get("nan", [])],
                        flags=[tuple(k) for k in cfg.get("flags", [])])
    th = theta(ctx, md)
    out = real_loglike(ctx, md, panel(ctx, md, vals, n), params_df(
        ctx, O.param_labels(md), th, order=lambda l: l[::-1]))
    steps = compose(ctx, md, vals, th, n)
    want = [sum(s[i] for s in steps) for i in range(n)]
    ctx.equal("contributions", out["contributions"], want)
    ctx.equal("value", [out["value"]], [sum(want)])
    ctx.no_nan("finite", out["contributions"])
    ctx.check("keys", {"value", "contributions"} <= set(out))


def closed_form(ctx, md, vals, th, n):
    """The same from the textbook formulas (one latent factor or linear dynamics).

    With mixtures the result is the likelihood itself, the weighted sum over the mixture
    elements of the joint density of all measurements."""
    fs, T, nm = O.latent(md), O.n_periods(md), O.n_mix(md)
    k, R = len(fs), range(len(fs))
    kappa = md["estimation_options"].get("sigma_points_scale", 2)
    out = []
    for i in range(n):
        mus, Ps, joint = [], [], []
        for m in range(nm):
            mix = f"mixture_{m}"
            low = O.chol_params(md, th, m)
            mus.append([th[("initial_states", 0, mix, f)] for f in fs])
            Ps.append([[sum(low[a][c] * low[b][c] for c in R) for b in R] for a in R])
            joint.append(th[("mixture_weights", 0, mix, "-")])
        total = []
        for t in range(T):
            for _, v, lf, purpose, col in [u for u in O.updates(md) if u[0] == t]:
                y = vals[(i, t, col)]
                if isinstance(y, float) and y != y:
                    continue
                h = [th[("loadings", t, v, f)] if f in lf else 0 for f in fs]
                r = th[("meas_sds", t, v, "-")]
                base = sum(th[("controls", t, v, c)]
                           * (1 if c == "constant" else vals[(i, t, c)]) for c in O.controls(md))
                for m in range(nm):
                    Ph = [sum(Ps[m][a][b] * h[b] for b in R) for a in R]
                    S = sum(h[a] * Ph[a] for a in R) + r * r
                    e = y - base - sum(h[a] * mus[m][a] for a in R)
                    if nm == 1:
                        total.append(-ctx.log(2 * ctx.pi() * S) / 2 - e * e / (2 * S))
                    else:
                        joint[m] = (joint[m] * ctx.exp(-e * e / (2 * S))
                                    / ctx.sqrt(2 * ctx.pi() * S))
                    if purpose == "measurement":
                        mus[m] = [mus[m][a] + Ph[a] / S * e for a in R]
                        Ps[m] = [[Ps[m][a][b] - Ph[a] * Ph[b] / S for b in R] for a in R]
            if t < T - 1:
                obs = {c: vals[(i, t, c)] for c in O.observed(md)}
                for m in range(nm):
                    mus[m], Ps[m] = predicted(ctx, md, th, t, mus[m], Ps[m], obs, kappa)
        out.append(sum(total) if nm == 1 else sum(joint))
    return out


def predicted(ctx, md, th, t, mu, P, obs, kappa):
    fs = O.latent(md)
    n, R = len(fs), range(len(fs))
    q = [th[("shock_sds", t, f, "-")] for f in fs]

    def g(x):
        nxt = O.next_states(ctx, md, th, t, dict(zip(fs, x)), obs)
        return [nxt[f] for f in fs]

    if n == 1:
        h = ctx.sqrt((kappa + 1) * P[0][0])
        pts = [g([mu[0]]), g([mu[0] + h]), g([mu[0] - h])]
        w = [ctx.pin(kappa) / (1 + kappa)] + [ctx.pin(1) / (2 * (1 + kappa))] * 2
        m = sum(a * p[0] for a, p in zip(w, pts))
        return [m], [[sum(a * (p[0] - m) * (p[0] - m) for a, p in zip(w, pts)) + q[0] * q[0]]]
    b0 = g([0] * n)
    A = [[g([1 if c == b else 0 for c in R])[a] - b0[a] for b in R] for a in R]
    m = [b0[a] + sum(A[a][b] * mu[b] for b in R) for a in R]
    return m, [[sum(A[a][c] * P[c][d] * A[b][d] for c in R for d in R)
                + (q[a] * q[a] if a == b else 0) for b in R] for a in R]


@harness(
    "C13", "textbook",
    configs=[dict(model="one", free=["all"]), dict(model="one", free=["all"], missing=True),
             dict(model="two", free=["controls"]),
             dict(model="two", free=["initial_states"]),
             dict(model="anch", free=["controls", "initial_states"]),
             dict(model="anch_swapped", free=["controls", "initial_states"]),
             dict(model="lin_obs", free=["controls", "initial_states", "transition"]),
             dict(model="one_quad", free=["transition", "initial_states", "controls"])],
    thorough=[dict(model="two", free=["controls", "initial_states"]),
              dict(model="three_lin", free=["controls"])],
    functions=FUN + ["skillmodels.kalman_filters.*"],
    bounds="8 cases with 1-2 latent factors, 2 periods, 2-3 individuals; data and the listed "
           "parameter groups symbolic, the other parameters fixed numbers; clipping off",
)
def textbook(ctx, cfg):
    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP)
    if "kappa" in cfg:
        md["estimation_options"]["sigma_points_scale"] = cfg["kappa"]
    nan = [(1, 0, "ya1")] if cfg.get("missing") else []
    n = 3 if nan else 2
    vals = panel_values(ctx, md, n, nan=nan, pin=not cfg.get("data", True))
    th = theta(ctx, md, free=cfg["free"])
    out = real_loglike(ctx, md, panel(ctx, md, vals, n), params_df(ctx, O.param_labels(md), th))
    want = closed_form(ctx, md, vals, th, n)
    if O.n_mix(md) == 1:
        ctx.equal("contributions", out["contributions"], want)
        ctx.equal("value", [out["value"]], [sum(want)])
    else:
        ctx.equal("likelihoods", [ctx.exp(c) for c in out["contributions"]], want)
        ctx.equal("value", [out["value"]], [sum(list(out["contributions"]))])
