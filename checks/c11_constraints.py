"""C11: the constraints describe exactly the admissible parameter vectors."""
import pandas as pd

from checks import models, oracle as O
from checks.common import params_index, process
from symx.engine import harness

ALL = ["one", "one3", "two_late", "shared", "obs2", "mix2", "mix3", "anch_second", "anch_both",
       "anch_swapped", "anch_off", "three", "three_norm", "custom3", "odd_names", "odd_const", "single",
       "single_mix", "quote",
       "same_meas", "gap", "anch_late", "all_const", "stages6", "mixed_stages", "stages4", "ces_mix"]


def positions(idx, loc):
    """Positions selected by an estimagic ``loc``; raises KeyError as pandas would."""
    sr = pd.Series(range(len(idx)), index=idx)
    if isinstance(loc, list) and len(loc) == 0:
        return []
    if isinstance(loc, list):
        out = []
        for l in loc:
            out += positions(idx, l)
        return out
    key = loc if isinstance(loc, tuple) else (loc,)
    hits = [i for i, lab in enumerate(idx) if tuple(lab[:len(key)]) == tuple(key)]
    if not hits:
        raise KeyError(loc)
    del sr
    return hits


def meaning(ctx, constr, idx, x):
    """The set described by an estimagic constraint list, as a formula over x."""
    out = []
    for c in constr:
        kind = c["type"]
        if kind == "pairwise_equality":
            groups = [positions(idx, l) for l in c["locs"]]
            if len({len(g) for g in groups}) != 1:
                raise ValueError("pairwise_equality of different lengths")
            for g in groups[1:]:
                out += [x[a] == x[b] for a, b in zip(groups[0], g)]
            continue
        pos = positions(idx, c["loc"])
        if kind == "fixed":
            v = c["value"]
            vals = list(v) if isinstance(v, (list, tuple)) or hasattr(v, "tolist") else [
                v] * len(pos)
            if len(vals) != len(pos):
                raise ValueError("fixed: number of values")
            out += [x[a] == ctx.pin(b) for a, b in zip(pos, vals)]
        elif kind == "probability":
            out += [x[a] >= 0 for a in pos] + [x[a] <= 1 for a in pos]
            out.append(sum(x[a] for a in pos) == 1)
        elif kind == "increasing":
            out += [x[a] <= x[b] for a, b in zip(pos, pos[1:])]
        elif kind == "decreasing":
            out += [x[a] >= x[b] for a, b in zip(pos, pos[1:])]
        elif kind == "equality":
            out += [x[pos[0]] == x[b] for b in pos[1:]]
        else:
            raise ValueError(f"unknown constraint type {kind}")
    return ctx.all(out)


def expected(ctx, md, y):
    """The admissible set, from the specification."""
    out = []
    fs, T, nm = O.latent(md), O.n_periods(md), O.n_mix(md)
    for f in fs:
        norm = md["factors"][f].get("normalizations", {})
        for t, d in enumerate(norm.get("loadings", [])):
            out += [y[("loadings", t, m, f)] == ctx.pin(v) for m, v in d.items()]
        for t, d in enumerate(norm.get("intercepts", [])):
            out += [y[("controls", t, m, "constant")] == ctx.pin(v) for m, v in d.items()]
    w = [y[("mixture_weights", 0, f"mixture_{m}", "-")] for m in range(nm)]
    out += [v >= 0 for v in w] + [v <= 1 for v in w] + [sum(w) == 1]
    mu = [y[("initial_states", 0, f"mixture_{m}", fs[0])] for m in range(nm)]
    out += [a <= b for a, b in zip(mu, mu[1:])]
    sm = O.stagemap(md)
    for t in range(T - 1):
        for s in range(t):
            if sm[s] == sm[t]:
                for f in fs:
                    out.append(y[("shock_sds", s, f, "-")] == y[("shock_sds", t, f, "-")])
                    out += [y[("transition", s, f, p)] == y[("transition", t, f, p)]
                            for p in O.trans_params(md, f)]
    for f in fs:
        kind = O.trans_kind(md, f)
        for t in range(T - 1):
            if kind == "constant":
                out.append(y[("shock_sds", t, f, "-")] == ctx.pin(0))
            if kind == "log_ces":
                g = [y[("transition", t, f, p)] for p in O.allf(md)]
                out += [v >= 0 for v in g] + [v <= 1 for v in g] + [sum(g) == 1]
    a = O.anchoring(md)
    for t in range(T):
        for name, _, f in O.anchor_eqs(md):
            if not a["free_constant"]:
                out.append(y[("controls", t, name, "constant")] == ctx.pin(0))
            if not a["free_controls"]:
                out += [y[("controls", t, name, c)] == ctx.pin(0) for c in O.controls(md)[1:]]
            if not a["free_loadings"]:
                out.append(y[("loadings", t, name, f)] == ctx.pin(1))
    return ctx.all(out)


@harness(
    "C11", "set",
    configs=[dict(model=m) for m in ALL + ["long12", "mix12", "wide12", "meas12", "four"]],
    functions=["skillmodels.constraints.get_constraints",
               "skillmodels.transition_functions.constraints_*",
               "skillmodels.process_model.process_model"],
    bounds="29 model structures (1-12 factors, 2-12 periods, stages, normalizations, mixtures, "
           "anchoring options); the parameter vector is symbolic over all reals of absolute "
           "value <= 10",
)
def the_set(ctx, cfg):
    from skillmodels.constraints import get_constraints

    md = models.model(cfg["model"])
    model = process(md)
    idx = params_index(model)
    constr = get_constraints(
        dimensions=model["dimensions"], labels=model["labels"],
        anchoring_info=model["anchoring"], update_info=model["update_info"],
        normalizations=model["normalizations"])
    x = [ctx.real(f"x{i}", -10, 10) for i in range(len(idx))]
    y = {lab: v for lab, v in zip(idx, x)}
    got = meaning(ctx, constr, idx, x)
    want = expected(ctx, md, y)
    ctx.check("constraints => admissible", ctx.any([ctx.neg(got), want]))
    ctx.check("admissible => constraints", ctx.any([ctx.neg(want), got]))
    ids = [c["id"] for c in constr]
    ctx.check("ids unique", len(set(ids)) == len(ids))
    for c in constr:
        used = c["locs"] if "locs" in c else [c["loc"]]
        ctx.check("nonempty", all(len(positions(idx, l)) > 0 for l in used))
