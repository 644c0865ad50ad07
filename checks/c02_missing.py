"""C02: a missing measurement changes nothing and contributes nothing."""
import numpy as np

from symx.engine import harness
from checks.c01_update import FUN, call_update, upper


@harness(
    "C02", "missing",
    configs=[
        dict(n_obs=1, n_mix=1, n=1, nc=1),
        dict(n_obs=2, n_mix=1, n=2, nc=2),
        dict(n_obs=2, n_mix=2, n=1, nc=2),
        dict(n_obs=1, n_mix=2, n=2, nc=1),
        dict(n_obs=1, n_mix=3, n=1, nc=1),
        dict(n_obs=3, n_mix=1, n=1, nc=2),
    ],
    thorough=[
        dict(n_obs=2, n_mix=2, n=2, nc=2),
        dict(n_obs=1, n_mix=1, n=3, nc=2),
        dict(n_obs=2, n_mix=3, n=1, nc=3),
        dict(n_obs=4, n_mix=1, n=2, nc=1),
    ],
    functions=FUN,
    bounds="n_obs<=3, n_mixtures<=3, n_states<=2, n_controls<=2 (thorough: 4, 3, 3, 3); which "
           "measurements and which controls are missing is symbolic",
    assumptions=["a control is only missing where the measurement is missing as well "
                 "(process_data guarantees this, C18)"],
)
def missing(ctx, cfg):
    n_obs, n_mix, n, nc = cfg["n_obs"], cfg["n_mix"], cfg["n"], cfg["nc"]
    obj = object if ctx.symbolic else float
    states = ctx.reals("s", (n_obs, n_mix, n), -3, 3)
    chols = np.empty((n_obs, n_mix, n, n), dtype=obj)
    for o in range(n_obs):
        for m in range(n_mix):
            chols[o, m] = upper(ctx, f"u{o}{m}", n)
    h = ctx.reals("h", (n,), -2, 2)
    g = ctx.reals("g", (nc,), -2, 2)
    sd = ctx.real("sd", 0.25, 2)
    y = np.empty(n_obs, dtype=obj)
    c = np.empty((n_obs, nc), dtype=obj)
    for o in range(n_obs):
        y[o] = ctx.nanreal(f"y{o}", -3, 3)
        for k in range(nc):
            c[o, k] = ctx.nanreal(f"c{o}{k}", -3, 3)
            ctx.assume(ctx.any([ctx.isnan(y[o]), ctx.neg(ctx.isnan(c[o, k]))]))
    logw = np.empty((n_obs, n_mix), dtype=obj)
    for o in range(n_obs):
        for m in range(n_mix):
            logw[o, m] = ctx.log(ctx.real(f"w{o}{m}", 0.1, 0.9))
    ns, nu, nw, ll, _ = [np.array(x) if k < 4 else x for k, x in enumerate(
        call_update(ctx, states, chols, h, g, sd, y, c, logw))]
    # the same update with a complete panel, for the observed individuals
    y2 = np.empty(n_obs, dtype=obj)
    c2 = np.empty((n_obs, nc), dtype=obj)
    for o in range(n_obs):
        y2[o] = ctx.ite(ctx.isnan(y[o]), ctx.pin(1), y[o])
        for k in range(nc):
            c2[o, k] = ctx.ite(ctx.isnan(c[o, k]), ctx.pin(1), c[o, k])
    fs, fu, fw, fl, _ = [np.array(x) if k < 4 else x for k, x in enumerate(
        call_update(ctx, states, chols, h, g, sd, y2, c2, logw))]

    def pick(o, old, full):
        old, full = np.asarray(old), np.asarray(full)
        out = np.empty(full.shape, dtype=obj)
        for ix in np.ndindex(*full.shape):
            out[ix] = ctx.ite(ctx.isnan(y[o]), old[ix], full[ix])
        return out

    for o in range(n_obs):
        ctx.equal(f"states {o}", ns[o], pick(o, states[o], fs[o]))
        ctx.equal(f"chols {o}", nu[o], pick(o, chols[o], fu[o]))
        ctx.equal(f"weights {o}", nw[o], pick(o, logw[o], fw[o]))
        ctx.equal(f"loglike {o}", [ll[o]], pick(o, np.array([ctx.pin(0)], dtype=obj), fl[o:o + 1]))
