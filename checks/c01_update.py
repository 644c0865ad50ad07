"""C01: the measurement update is exact Gaussian conditioning."""
import numpy as np

from symx.engine import harness

FUN = ["skillmodels.kalman_filters.kalman_update"]


def gram(u):
    """U'U for a small matrix given as nested list."""
    n = len(u[0])
    return [[sum(u[k][i] * u[k][j] for k in range(len(u))) for j in range(n)] for i in range(n)]


def upper(ctx, prefix, n, lo=0.5, hi=2.0):
    u = np.zeros((n, n), dtype=object if ctx.symbolic else float)
    for i in range(n):
        for j in range(n):
            if j == i:
                u[i, j] = ctx.real(f"{prefix}_{i}{j}", lo, hi)
            elif j > i:
                u[i, j] = ctx.real(f"{prefix}_{i}{j}", -2, 2)
            else:
                u[i, j] = ctx.pin(0)
    return u


def call_update(ctx, states, chols, loadings, cpar, sd, meas, controls, logw, debug=False):
    import jax.numpy as jnp
    from skillmodels.kalman_filters import kalman_update

    return kalman_update(
        states=jnp.array(states),
        upper_chols=jnp.array(chols),
        loadings=jnp.array(loadings),
        control_params=jnp.array(cpar),
        meas_sd=jnp.array(sd),
        measurements=jnp.array(meas),
        controls=jnp.array(controls),
        log_mixture_weights=jnp.array(logw),
        debug=debug,
    )


@harness(
    "C01", "update",
    configs=[
        dict(n_obs=1, n_mix=1, n=1, n_contr=1),
        dict(n_obs=2, n_mix=1, n=1, n_contr=2),
        dict(n_obs=1, n_mix=1, n=2, n_contr=2),
        dict(n_obs=1, n_mix=2, n=1, n_contr=1),
        dict(n_obs=2, n_mix=2, n=2, n_contr=1),
        dict(n_obs=1, n_mix=1, n=3, n_contr=1),
        dict(n_obs=1, n_mix=1, n=2, n_contr=1, noise=False),
        dict(n_obs=1, n_mix=1, n=2, n_contr=1, flat=[1]),
        dict(n_obs=1, n_mix=2, n=3, n_contr=1, flat=[0]),
    ],
    functions=FUN,
    bounds="n_obs<=2, n_mixtures<=2, n_states<=3, n_controls<=2; all arrays symbolic",
)
def update(ctx, cfg):
    n_obs, n_mix, n, nc = cfg["n_obs"], cfg["n_mix"], cfg["n"], cfg["n_contr"]
    obj = object if ctx.symbolic else float
    states = ctx.reals("s", (n_obs, n_mix, n), -3, 3)
    chols = np.empty((n_obs, n_mix, n, n), dtype=obj)
    for o in range(n_obs):
        for m in range(n_mix):
            chols[o, m] = upper(ctx, f"u{o}{m}", n)
            for i in cfg.get("flat", []):
                chols[o, m, i, i] = ctx.pin(0)
    h = ctx.reals("h", (n,), -2, 2)
    g = ctx.reals("g", (nc,), -2, 2)
    sd = ctx.real("sd", 0.25, 2) if cfg.get("noise", True) else ctx.pin(0)
    y = ctx.reals("y", (n_obs,), -3, 3)
    c = ctx.reals("c", (n_obs, nc), -2, 2)
    w = ctx.reals("w", (n_obs, n_mix), 0.1, 0.9)
    logw = np.empty((n_obs, n_mix), dtype=obj)
    for ix in np.ndindex(n_obs, n_mix):
        logw[ix] = ctx.log(w[ix])
    ns, nu, nw, ll, _ = call_update(ctx, states, chols, h, g, sd, y, c, logw)
    ns, nu, nw, ll = [np.array(x) for x in (ns, nu, nw, ll)]
    for o in range(n_obs):
        for m in range(n_mix):
            P = ctx.gram(chols[o, m])
            mu = sum(h[i] * states[o, m, i] for i in range(n)) + sum(c[o, k] * g[k] for k in range(nc))
            Ph = [sum(P[i][j] * h[j] for j in range(n)) for i in range(n)]
            v = sum(h[i] * Ph[i] for i in range(n)) + sd * sd
            res = y[o] - mu
            mean = [states[o, m, i] + Ph[i] / v * res for i in range(n)]
            ctx.equal(f"mean {o}{m}", ns[o, m], mean)
            cov = [[P[i][j] - Ph[i] * Ph[j] / v for j in range(n)] for i in range(n)]
            ctx.equal(f"cov {o}{m}", ctx.gram(nu[o, m]), cov)
            if n_mix == 1:
                want = -(ctx.log(2 * ctx.pi()) + ctx.log(v) + res * res / v) / 2
                ctx.equal(f"loglike {o}", ll[o], want)
