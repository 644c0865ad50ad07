"""C03: mixture weights follow Bayes' rule; the contribution is the mixture density."""
import numpy as np

from symx.engine import harness
from checks.c01_update import FUN, call_update, upper


@harness(
    "C03", "bayes",
    configs=[
        dict(n_obs=1, n_mix=2, n=1, nc=1),
        dict(n_obs=2, n_mix=2, n=1, nc=2),
        dict(n_obs=1, n_mix=2, n=2, nc=1),
        dict(n_obs=1, n_mix=3, n=1, nc=1),
        dict(n_obs=1, n_mix=1, n=2, nc=1),
    ],
    thorough=[dict(n_obs=2, n_mix=3, n=2, nc=2), dict(n_obs=1, n_mix=4, n=1, nc=1),
              dict(n_obs=3, n_mix=2, n=1, nc=1)],
    functions=FUN,
    bounds="n_obs<=2, n_mixtures<=3, n_states<=2 (thorough: 3, 4, 2); weights are arbitrary "
           "positive numbers",
)
def bayes(ctx, cfg):
    n_obs, n_mix, n, nc = cfg["n_obs"], cfg["n_mix"], cfg["n"], cfg["nc"]
    obj = object if ctx.symbolic else float
    states = ctx.reals("s", (n_obs, n_mix, n), -3, 3)
    chols = np.empty((n_obs, n_mix, n, n), dtype=obj)
    for o in range(n_obs):
        for m in range(n_mix):
            chols[o, m] = upper(ctx, f"u{o}{m}", n)
    h = ctx.reals("h", (n,), -2, 2)
    g = ctx.reals("g", (nc,), -2, 2)
    sd = ctx.real("sd", 0.25, 2)
    y = ctx.reals("y", (n_obs,), -3, 3)
    c = ctx.reals("c", (n_obs, nc), -2, 2)
    w = ctx.reals("w", (n_obs, n_mix), 0.1, 0.9)
    logw = np.empty((n_obs, n_mix), dtype=obj)
    for ix in np.ndindex(n_obs, n_mix):
        logw[ix] = ctx.log(w[ix])
    _, _, nw, ll, _ = call_update(ctx, states, chols, h, g, sd, y, c, logw)
    nw, ll = np.array(nw), np.array(ll)
    for o in range(n_obs):
        dens = []
        for m in range(n_mix):
            f = [sum(chols[o, m][k, i] * h[i] for i in range(n)) for k in range(n)]
            v = sum(x * x for x in f) + sd * sd
            mu = sum(h[i] * states[o, m, i] for i in range(n)) + sum(
                c[o, k] * g[k] for k in range(nc))
            r = y[o] - mu
            dens.append(w[o, m] * ctx.exp(-(r * r) / (2 * v)) / ctx.sqrt(2 * ctx.pi() * v))
        tot = sum(dens)
        if n_mix == 1:
            ctx.equal(f"weight {o}", nw[o], logw[o])
            ctx.equal(f"likelihood {o}", [ctx.exp(ll[o])], [tot / w[o, 0]])
            continue
        ctx.equal(f"likelihood {o}", [ctx.exp(ll[o])], [tot])
        post = [ctx.exp(nw[o, m]) for m in range(n_mix)]
        ctx.equal(f"sum {o}", [sum(post)], [ctx.pin(1)])
        ctx.equal(f"posterior {o}", [p * tot for p in post], dens)
