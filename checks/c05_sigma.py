"""C05: sigma points represent mean and covariance exactly, for every kappa."""
import numpy as np

from checks import models, oracle as O
from checks.c01_update import upper
from checks.common import arr, obj
from checks.c04_predict import coefficients
from symx.engine import harness

FUN = ["skillmodels.kalman_filters._calculate_sigma_points",
       "skillmodels.kalman_filters.calculate_sigma_scaling_factor_and_weights",
       "skillmodels.kalman_filters.kalman_predict"]


@harness(
    "C05", "moments",
    configs=[dict(n=1, n_obs=2, n_mix=2, no=0), dict(n=2, n_obs=1, n_mix=1, no=1),
             dict(n=2, n_obs=2, n_mix=2, no=2), dict(n=3, n_obs=1, n_mix=2, no=1),
             dict(n=4, n_obs=1, n_mix=1, no=0), dict(n=1, n_obs=3, n_mix=3, no=1)],
    thorough=[dict(n=5, n_obs=1, n_mix=1, no=1), dict(n=3, n_obs=3, n_mix=3, no=2),
              dict(n=6, n_obs=1, n_mix=1, no=0)],
    functions=FUN,
    bounds="1-4 latent factors, 0-2 observed factors, <=3 individuals, <=3 mixtures; kappa, "
           "means, covariance factors and observed factors symbolic",
)
def moments(ctx, cfg):
    import jax.numpy as jnp
    from skillmodels.kalman_filters import _calculate_sigma_points
    from skillmodels.kalman_filters import calculate_sigma_scaling_factor_and_weights

    n, n_obs, n_mix, no = cfg["n"], cfg["n_obs"], cfg["n_mix"], cfg["no"]
    kappa = ctx.real("kappa", 0.125, 8)
    fac, w = calculate_sigma_scaling_factor_and_weights(n, jnp.array(kappa))
    w = np.array(w)
    states = ctx.reals("s", (n_obs, n_mix, n), -2, 2)
    chols = np.empty((n_obs, n_mix, n, n), dtype=obj(ctx))
    for o, m in np.ndindex(n_obs, n_mix):
        chols[o, m] = upper(ctx, f"u{o}{m}", n)
    obs = ctx.reals("z", (n_obs, no), -2, 2)
    pts = np.array(_calculate_sigma_points(
        jnp.array(states), jnp.array(chols), fac, jnp.array(obs)))
    ctx.check("one weight per point", pts.shape[:2] == (n_obs, n_mix)
              and pts.shape[2] == len(w) and pts.shape[3] == n + no)
    ctx.equal("weights sum", [sum(w)], [ctx.pin(1)])
    for k in range(len(w)):
        ctx.check(f"weight {k} >= 0", w[k] >= 0)
    for o, m in np.ndindex(n_obs, n_mix):
        p = pts[o, m]
        for i in range(n):
            ctx.equal(f"mean {o}{m}{i}", [sum(w[k] * p[k, i] for k in range(len(w)))],
                      [states[o, m, i]])
        P = ctx.gram(chols[o, m])
        for i in range(n):
            for j in range(i, n):
                got = sum(w[k] * (p[k, i] - states[o, m, i]) * (p[k, j] - states[o, m, j])
                          for k in range(len(w)))
                ctx.equal(f"cov {o}{m}{i}{j}", [got], [P[i][j]])
        for k in range(len(w)):
            ctx.equal(f"observed {o}{m}{k}", p[k, n:], obs[o])


@harness(
    "C05", "linear",
    configs=[dict(model="one", n_mix=1), dict(model="two", n_mix=1), dict(model="mixobs", n_mix=2)],
    thorough=[dict(model="two", n_mix=2)],
    functions=FUN,
    bounds="linear transitions of 1-2 latent and 0-1 observed factors; everything including "
           "kappa symbolic",
)
def linear(ctx, cfg):
    """With linear dynamics the prediction is the exact linear Kalman prediction."""
    import jax.numpy as jnp
    from checks.common import process
    from skillmodels.kalman_filters import calculate_sigma_scaling_factor_and_weights
    from skillmodels.kalman_filters import kalman_predict

    md = models.model(cfg["model"])
    fs, ofs = O.latent(md), O.observed(md)
    n, no, n_mix = len(fs), len(ofs), cfg["n_mix"]
    kappa = ctx.real("kappa", 0.125, 8)
    fac, w = calculate_sigma_scaling_factor_and_weights(n, jnp.array(kappa))
    states = ctx.reals("s", (1, n_mix, n), -2, 2)
    chols = np.empty((1, n_mix, n, n), dtype=obj(ctx))
    for m in range(n_mix):
        chols[0, m] = upper(ctx, f"u{m}", n)
    q = ctx.reals("q", (n,), 0.25, 2)
    obs = ctx.reals("z", (1, no), -2, 2)
    coef = coefficients(ctx, md)
    info = process(md)["transition_info"]
    one, zero = np.ones((2, n + no)), np.zeros((2, n + no))
    ns, nu = kalman_predict(
        states=jnp.array(states), upper_chols=jnp.array(chols), sigma_scaling_factor=fac,
        sigma_weights=w, transition_info=info,
        trans_coeffs={f: jnp.array(arr(ctx, [coef[f][k] for k in info["param_names"][f]]))
                      for f in fs},
        shock_sds=jnp.array(q), anchoring_scaling_factors=jnp.array(one),
        anchoring_constants=jnp.array(zero), observed_factors=jnp.array(obs))
    ns, nu = np.array(ns), np.array(nu)
    for m in range(n_mix):
        P = ctx.gram(chols[0, m])
        A = [[coef[f][g] for g in fs] for f in fs]
        mean = [sum(A[i][j] * states[0, m, j] for j in range(n)) + coef[f]["constant"]
                + sum(coef[f][g] * obs[0, k] for k, g in enumerate(ofs))
                for i, f in enumerate(fs)]
        cov = [[sum(A[i][k] * P[k][l] * A[j][l] for k in range(n) for l in range(n))
                + (q[i] * q[i] if i == j else 0) for j in range(n)] for i in range(n)]
        ctx.equal(f"mean {m}", ns[0, m], mean)
        ctx.equal(f"cov {m}", ctx.gram(nu[0, m]), cov)
