"""C04: the prediction step is the unscented transform of the anchored transition."""
import numpy as np

from checks import models, oracle as O
from checks.common import arr, nice, obj, process
from symx.engine import harness

FUN = ["skillmodels.kalman_filters.kalman_predict",
       "skillmodels.kalman_filters._calculate_sigma_points",
       "skillmodels.kalman_filters.transform_sigma_points",
       "skillmodels.kalman_filters.calculate_sigma_scaling_factor_and_weights",
       "skillmodels.process_model._get_transition_info",
       "skillmodels.transition_functions.*", "skillmodels.decorators.extract_params"]

BOUND = {"log_ces": (0.2, 1), "log_ces_general": (0.2, 1)}


def coefficients(ctx, md, free=True, tag=""):
    """factor -> {param name -> value}."""
    out = {}
    for f in O.latent(md):
        lo, hi = BOUND.get(O.trans_kind(md, f), (-1, 1))
        out[f] = {
            n: ctx.real(f"{tag}{f}|{n}", lo, hi) if free else ctx.pin(nice((f, n), lo, hi))
            for n in O.trans_params(md, f)}
    return out


def call_predict(ctx, md, states, chols, kappa, coef, shocks, scale, const, obs):
    import jax.numpy as jnp
    from skillmodels.kalman_filters import calculate_sigma_scaling_factor_and_weights
    from skillmodels.kalman_filters import kalman_predict

    info = process(md)["transition_info"]
    fac, w = calculate_sigma_scaling_factor_and_weights(len(O.latent(md)), kappa)
    tc = {f: jnp.array(arr(ctx, [coef[f][n] for n in info["param_names"][f]])) for f in coef}
    return kalman_predict(
        states=jnp.array(states), upper_chols=jnp.array(chols), sigma_scaling_factor=fac,
        sigma_weights=w, transition_info=info, trans_coeffs=tc,
        shock_sds=jnp.array(shocks), anchoring_scaling_factors=jnp.array(scale),
        anchoring_constants=jnp.array(const), observed_factors=jnp.array(obs))


def unscented(ctx, md, mean, U, kappa, coef, shocks, scale, const, obs):
    """Mean and covariance of the next states, by the definition (Julier points)."""
    fs = O.latent(md)
    n = len(fs)
    h = ctx.sqrt(ctx.pin(kappa + n))
    pts, wts = [list(mean)], [ctx.pin(kappa) / (n + kappa)]
    for s in (1, -1):
        for k in range(n):
            pts.append([mean[i] + s * h * U[k][i] for i in range(n)])
            wts.append(ctx.pin(1) / (2 * (n + kappa)))
    ys = []
    for p in pts:
        x = {f: p[i] * scale[0][i] + const[0][i] for i, f in enumerate(fs)}
        x.update({f: obs[j] for j, f in enumerate(O.observed(md))})
        ys.append([(O.trans(ctx, md, f, x, coef[f]) - const[1][i]) / scale[1][i]
                   for i, f in enumerate(fs)])
    m = [sum(w * y[i] for w, y in zip(wts, ys)) for i in range(n)]
    P = [[sum(w * (y[i] - m[i]) * (y[j] - m[j]) for w, y in zip(wts, ys))
          + (shocks[i] * shocks[i] if i == j else 0) for j in range(n)] for i in range(n)]
    return m, P


@harness(
    "C04", "predict",
    configs=[
        dict(model="one", n_obs=2, n_mix=1, kappa=2, anch=True),
        dict(model="two", n_obs=1, n_mix=1, kappa=2, anch=True),
        dict(model="two", n_obs=2, n_mix=2, kappa=2, anch=False),
        dict(model="obs", n_obs=2, n_mix=1, kappa=1, anch=True, pin=["coef", "chol"]),
        dict(model="obs", n_obs=1, n_mix=1, kappa=1, anch=True, pin=["scale", "const", "state"]),
        dict(model="mixobs", n_obs=2, n_mix=2, kappa=2, anch=True),
        dict(model="mixobs", n_obs=1, n_mix=3, kappa=2, anch=False),
        dict(model="anch_second", n_obs=1, n_mix=1, kappa=2, anch=True, pin=["chol"]),
        dict(model="anch_second", n_obs=1, n_mix=1, kappa=2, anch=True, pin=["coef", "const"]),
        dict(model="custom", n_obs=1, n_mix=1, kappa=2, anch=True),
        dict(model="custom2", n_obs=2, n_mix=2, kappa=2, anch=False),
        dict(model="obs2", n_obs=2, n_mix=1, kappa=3, anch=False),
        dict(model="three", n_obs=1, n_mix=1, kappa=1, anch=False, pin=["state", "chol"]),
        dict(model="odd_names", n_obs=1, n_mix=1, kappa=2, anch=False),
    ],
    thorough=[
        dict(model="obs", n_obs=3, n_mix=3, kappa=2, anch=True),
        dict(model="custom3", n_obs=1, n_mix=1, kappa=2, anch=True),
        dict(model="three", n_obs=1, n_mix=2, kappa=2, anch=True),
        dict(model="three_norm", n_obs=1, n_mix=1, kappa=2, anch=False),
        dict(model="anch_second", n_obs=2, n_mix=2, kappa=2, anch=True),
    ],
    functions=FUN,
    bounds="12 model structures (thorough 17): 1-3 latent and 0-2 observed factors, "
           "1-3 mixtures, 1-2 individuals, every transition function; means, covariance "
           "factors, shock sds, coefficients, observed factors and anchoring parameters "
           "symbolic (kappa a fixed small integer)",
)
def predict(ctx, cfg):
    md = models.model(cfg["model"])
    fs, ofs = O.latent(md), O.observed(md)
    n, no = len(fs), len(ofs)
    n_obs, n_mix, kappa = cfg["n_obs"], cfg["n_mix"], cfg["kappa"]
    pins = cfg.get("pin", [])

    def val(kind, name, lo, hi):
        return ctx.pin(nice((kind, name), lo, hi)) if kind in pins else ctx.real(name, lo, hi)

    def vals(kind, prefix, shape, lo, hi):
        out = np.empty(shape, dtype=obj(ctx))
        for ix in np.ndindex(*shape):
            out[ix] = val(kind, prefix + "_".join(map(str, ix)), lo, hi)
        return out

    states = vals("state", "s", (n_obs, n_mix, n), -2, 2)
    chols = np.empty((n_obs, n_mix, n, n), dtype=obj(ctx))
    for o, m, i, j in np.ndindex(n_obs, n_mix, n, n):
        lo, hi = (0.5, 2) if i == j else (-1, 1)
        chols[o, m, i, j] = val("chol", f"u{o}{m}{i}{j}", lo, hi) if i <= j else ctx.pin(0)
    shocks = vals("shock", "q", (n,), 0.25, 2)
    obs = vals("obs", "z", (n_obs, no), -2, 2)
    coef = coefficients(ctx, md, "coef" not in pins)
    scale = np.empty((2, n + no), dtype=obj(ctx))
    const = np.empty((2, n + no), dtype=obj(ctx))
    for i in range(2):
        for j in range(n + no):
            if cfg["anch"] and j < n:
                scale[i, j] = val("scale", f"sc{i}{j}", 0.5, 2)
                const[i, j] = val("const", f"co{i}{j}", -1, 1)
            else:
                scale[i, j], const[i, j] = ctx.pin(1), ctx.pin(0)
    ns, nu = call_predict(ctx, md, states, chols, kappa, coef, shocks, scale, const, obs)
    ns, nu = np.array(ns), np.array(nu)
    for o in range(n_obs):
        for m in range(n_mix):
            wm, wP = unscented(ctx, md, states[o, m], chols[o, m], kappa, coef, shocks, scale,
                               const, obs[o])
            ctx.equal(f"mean {o}{m}", ns[o, m], wm)
            ctx.equal(f"cov {o}{m}", ctx.gram(nu[o, m]), wP)
            low = [nu[o, m, i, j] for i in range(n) for j in range(i)]
            if low:
                ctx.equal(f"triangular {o}{m}", low, [0] * len(low))
