"""What a model specification means, written down independently of the code under test."""
from itertools import combinations

from checks.models import CUSTOM_PARAMS


# ------------------------------------------------------------------- structure
def latent(md):
    return list(md["factors"])


def observed(md):
    return list(md.get("observed_factors", []))


def allf(md):
    return latent(md) + observed(md)


def controls(md):
    return ["constant"] + list(md.get("controls", []))


def n_periods(md):
    return max(len(f["measurements"]) for f in md["factors"].values())


def n_mix(md):
    return md.get("estimation_options", {}).get("n_mixtures", 1)


def stagemap(md):
    return md.get("stagemap", list(range(n_periods(md) - 1)))


def anchoring(md):
    a = dict(outcomes={}, free_controls=False, free_constant=False, free_loadings=False,
             ignore_constant_when_anchoring=False)
    a.update(md.get("anchoring", {}))
    return a


def measured(md, t):
    """[(variable, [factors])] of the measurement equations of period t, in order."""
    out = {}
    for f, d in md["factors"].items():
        ms = d["measurements"]
        for m in (ms[t] if t < len(ms) else []):
            out.setdefault(m, [])
            if f not in out[m]:
                out[m].append(f)
    return list(out.items())


def anchor_eqs(md):
    """[(update name, outcome, factor)]"""
    return [(f"{y}_{f}", y, f) for f, y in anchoring(md)["outcomes"].items()]


def updates(md):
    """[(period, variable, factors, purpose, data column)] in any within-period order."""
    out = []
    for t in range(n_periods(md)):
        for m, fs in measured(md, t):
            out.append((t, m, fs, "measurement", m))
        for name, y, f in anchor_eqs(md):
            out.append((t, name, [f], "anchoring", y))
    return out


def trans_kind(md, f):
    t = md["factors"][f]["transition_function"]
    if isinstance(t, str):
        return t
    return {"keep_first": "c_a", "prod_ab": "c_ab", "states_only": "c_states",
            "no_params": "c_none", "with_obs": "c_obs", "both_obs": "c_both"}[t.__name__]


def trans_params(md, f):
    kind = trans_kind(md, f)
    fs = allf(md)
    if kind == "linear":
        return fs + ["constant"]
    if kind in ("translog", "robust_translog"):
        return (fs + [f"{x} ** 2" for x in fs] + [f"{x} * {y}" for x, y in combinations(fs, 2)]
                + ["constant"])
    if kind == "linear_and_squares":
        return fs + [f"{x} ** 2" for x in fs] + ["constant"]
    if kind == "log_ces":
        return fs + ["phi"]
    if kind == "log_ces_general":
        return fs + [f"sigma_{x}" for x in fs] + ["tfp"]
    if kind == "constant":
        return []
    return CUSTOM_PARAMS[kind]


def param_labels(md):
    """The set of all parameters of the model, each with its four-part label."""
    out = []
    T = n_periods(md)
    for t, v, fs, _, _ in updates(md):
        out += [("controls", t, v, c) for c in controls(md)]
        out += [("loadings", t, v, f) for f in fs]
        out.append(("meas_sds", t, v, "-"))
    for t in range(T - 1):
        out += [("shock_sds", t, f, "-") for f in latent(md)]
        for f in latent(md):
            out += [("transition", t, f, p) for p in trans_params(md, f)]
    for m in range(n_mix(md)):
        out += [("initial_states", 0, f"mixture_{m}", f) for f in latent(md)]
        out.append(("mixture_weights", 0, f"mixture_{m}", "-"))
        fs = latent(md)
        for i, f in enumerate(fs):
            for g in fs[: i + 1]:
                out.append(("initial_cholcovs", 0, f"mixture_{m}", f"{f}-{g}"))
    return out


# ------------------------------------------------------------------ transitions
def trans(ctx, md, f, x, p):
    """Next value of (anchored) factor f; x: factor -> value, p: parameter name -> value."""
    kind = trans_kind(md, f)
    fs = allf(md)
    if kind == "linear":
        return sum(p[g] * x[g] for g in fs) + p["constant"]
    if kind in ("translog", "robust_translog"):
        r = sum(p[g] * x[g] for g in fs) + p["constant"]
        r = r + sum(p[f"{g} ** 2"] * x[g] * x[g] for g in fs)
        for g, h in combinations(fs, 2):
            r = r + p[f"{g} * {h}"] * x[g] * x[h]
        return r
    if kind == "linear_and_squares":
        return sum(p[g] * x[g] + p[f"{g} ** 2"] * x[g] * x[g] for g in fs) + p["constant"]
    if kind == "log_ces":
        return ctx.log(sum(p[g] * ctx.exp(p["phi"] * x[g]) for g in fs)) / p["phi"]
    if kind == "log_ces_general":
        return ctx.log(sum(p[g] * ctx.exp(p[f"sigma_{g}"] * x[g]) for g in fs)) * p["tfp"]
    if kind == "constant":
        return x[f]
    if kind == "c_a":
        return p["tilt"] * x["a"] + p["level"]
    if kind == "c_ab":
        return p["p1"] * x["a"] + p["p2"] * x["b"] * x["b"] + p["shift"]
    if kind == "c_states":
        return p["w"] * x[fs[0]] + p["x"] * x[fs[-1]] * x[fs[-1]]
    if kind == "c_none":
        return x["a"] - x["b"]
    if kind == "c_obs":
        return p["g"] * x["a"] * x["obs1"]
    if kind == "c_both":
        return p["up"] * x["obs3"] + p["down"] * x["b"] * x["obs1"]
    raise KeyError(kind)


# ------------------------------------------------------------------- anchoring
def anchor_of(md, theta, t, f):
    """(scale, constant) that turn factor f of period t into units of its outcome."""
    a = anchoring(md)
    if f not in a["outcomes"]:
        return 1, 0
    name = f"{a['outcomes'][f]}_{f}"
    scale = theta[("loadings", t, name, f)]
    const = 0 if a["ignore_constant_when_anchoring"] else theta[("controls", t, name, "constant")]
    return scale, const


def next_states(ctx, md, theta, t, x, obs):
    """Latent factors of t+1 (without shock) from latent x and observed factors obs of t."""
    anch = {}
    for f in latent(md):
        s, c = anchor_of(md, theta, t, f)
        anch[f] = x[f] * s + c
    anch.update(obs)
    out = {}
    for f in latent(md):
        p = {n: theta[("transition", t, f, n)] for n in trans_params(md, f)}
        s, c = anchor_of(md, theta, t + 1, f)
        out[f] = (trans(ctx, md, f, anch, p) - c) / s
    return out


# -------------------------------------------------------------- linear algebra
def chol_params(md, theta, m):
    """Lower triangular factor of the initial covariance of mixture m."""
    fs = latent(md)
    return [[theta[("initial_cholcovs", 0, f"mixture_{m}", f"{f}-{g}")] if j <= i else 0
             for j, g in enumerate(fs)] for i, f in enumerate(fs)]


def data_kinds(md):
    return {"measurement": [v for t in range(n_periods(md)) for v, _ in measured(md, t)],
            "outcome": list(anchoring(md)["outcomes"].values()),
            "control": list(md.get("controls", [])), "observed": observed(md)}
