"""C06: every built-in transition function computes its documented formula by name."""
import numpy as np

from checks import oracle as O
from checks.common import arr, obj
from symx.engine import harness

KINDS = ["linear", "translog", "robust_translog", "linear_and_squares", "log_ces",
         "log_ces_general"]


@harness(
    "C06", "formula",
    configs=[dict(kind=k, n=n) for k in KINDS for n in (1, 2, 3, 4)] + [
        dict(kind=k, n=3, zero=z) for k in ("log_ces", "log_ces_general") for z in (0, 2)],
    thorough=[dict(kind=k, n=n) for k in KINDS for n in (5, 6)],
    functions=["skillmodels.transition_functions.*"],
    bounds="1-4 factors (thorough: 6); states and parameters symbolic, shares of the CES "
           "functions positive or one of them exactly zero",
    assumptions=["CES shares are non-negative with positive sum, phi is not zero"],
)
def formula(ctx, cfg):
    import jax.numpy as jnp
    import skillmodels.transition_functions as tf

    names = ["skill", "inv", "par", "x y", "f5", "f6"][: cfg["n"]]
    kind = cfg["kind"]
    md = {"factors": {f: {"transition_function": kind} for f in names}}
    pnames = getattr(tf, f"params_{kind}")(list(names))
    ctx.check("parameter names", sorted(pnames) == sorted(O.trans_params(md, names[0])))
    ctx.check("names unique", len(set(pnames)) == len(pnames))
    x = {f: ctx.real(f"x|{f}", -3, 3) for f in names}
    ces = kind.startswith("log_ces")
    p = {}
    for k in pnames:
        lo, hi = (0.125, 2) if ces else (-2, 2)
        p[k] = ctx.real(f"p|{k}", lo, hi)
    if "zero" in cfg:
        p[names[cfg["zero"]]] = ctx.pin(0)
    got = getattr(tf, kind)(
        jnp.array(arr(ctx, [x[f] for f in names])), jnp.array(arr(ctx, [p[k] for k in pnames])))
    want = O.trans(ctx, md, names[0], x, p)
    ctx.equal("next", [np.array(got).reshape(-1)[0]], [want])


@harness(
    "C06", "negative_phi",
    configs=[dict(n=n) for n in (1, 2, 3)],
    functions=["skillmodels.transition_functions.log_ces"],
    bounds="1-3 factors, phi in [-2, -1/8]",
)
def negative_phi(ctx, cfg):
    import jax.numpy as jnp
    import skillmodels.transition_functions as tf

    names = ["a", "b", "c"][: cfg["n"]]
    md = {"factors": {f: {"transition_function": "log_ces"} for f in names}}
    x = {f: ctx.real(f"x|{f}", -3, 3) for f in names}
    p = {f: ctx.real(f"p|{f}", 0.125, 1) for f in names}
    p["phi"] = ctx.real("phi", -2, -0.125)
    order = tf.params_log_ces(list(names))
    got = tf.log_ces(jnp.array(arr(ctx, [x[f] for f in names])),
                     jnp.array(arr(ctx, [p[k] for k in order])))
    ctx.equal("next", [np.array(got).reshape(-1)[0]], [O.trans(ctx, md, "a", x, p)])


@harness(
    "C06", "constraint",
    configs=[dict(n=n) for n in (1, 2, 3)],
    functions=["skillmodels.transition_functions.constraints_log_ces"],
    bounds="1-3 factors; the shares are symbolic",
)
def constraint(ctx, cfg):
    """The shares of log_ces (and nothing else) are constrained to be probabilities."""
    import skillmodels.transition_functions as tf

    names = ["a", "b", "c"][: cfg["n"]]
    c = tf.constraints_log_ces("b", list(names), 3)
    p = {("transition", 3, "b", k): ctx.real(f"p|{k}", -2, 2) for k in names + ["phi"]}
    vals = [p[tuple(l)] for l in c["loc"]]
    got = ctx.all([v >= 0 for v in vals] + [sum(vals) == 1]) if c["type"] == "probability" \
        else False
    want = ctx.all([p[("transition", 3, "b", k)] >= 0 for k in names]
                   + [sum(p[("transition", 3, "b", k)] for k in names) == 1])
    ctx.check("probability of shares", ctx.iff(got, want))


@harness(
    "C06", "robust",
    configs=[dict(n=n, sign=s, range=r) for n, s in [(1, [1]), (1, [-1]), (2, [1, -1]),
                                                     (3, [-1, 1, -1])]
             for r in ([1, 1e4], [1e9, 1e11], [2e12, 4e12])],
    functions=["skillmodels.transition_functions.robust_translog"],
    bounds="1-3 factors with values between 1 and 4e12 in absolute value; parameters between "
           "1/2 and 2",
)
def robust(ctx, cfg):
    """Translog of the states, which are limited to +-1e12."""
    import jax.numpy as jnp
    import skillmodels.transition_functions as tf

    names = ["a", "b", "c"][: cfg["n"]]
    md = {"factors": {f: {"transition_function": "robust_translog"} for f in names}}
    lo, hi = cfg["range"]
    x = {f: ctx.real(f"x|{f}", lo, hi) * s for f, s in zip(names, cfg["sign"])}
    order = tf.params_robust_translog(list(names))
    p = {k: ctx.real(f"p|{k}", 0.5, 2) for k in order}
    got = tf.robust_translog(jnp.array(arr(ctx, [x[f] for f in names])),
                             jnp.array(arr(ctx, [p[k] for k in order])))
    lim = {f: ctx.pin(10**12) * s if lo > 1e12 else x[f] for f, s in zip(names, cfg["sign"])}
    ctx.equal("next", [np.array(got).reshape(-1)[0]], [O.trans(ctx, md, "a", lim, p)])
