"""C23: editing a specification keeps everything that is not edited, parameters included."""
import math
import warnings
from copy import deepcopy

import numpy as np
import pandas as pd

from checks import models, oracle as O
from checks.common import name_of, nice, obj
from symx.engine import harness

U = "skillmodels.utilities."


def base(name):
    md = models.model(name)
    if name == "three_norm":
        md["anchoring"] = {"outcomes": {"b": "Q", "a": "R"}, "free_loadings": True}
        md["observed_factors"] = ["obs1"]
        md["estimation_options"]["sigma_points_scale"] = 1
    return md


def edit(md, op):
    """The specification that is expected after an edit."""
    out = deepcopy(md)
    kind, arg = op[0], op[1]
    if kind in ("remove_factors", "extract_factors"):
        gone = [arg] if isinstance(arg, str) else list(arg)
        if kind == "extract_factors":
            gone = [f for f in out["factors"] if f not in gone]
        out["factors"] = {f: d for f, d in out["factors"].items() if f not in gone}
        if "anchoring" in out:
            oc = {f: y for f, y in out["anchoring"]["outcomes"].items() if f not in gone}
            if oc:
                out["anchoring"]["outcomes"] = oc
            else:
                del out["anchoring"]
        T = O.n_periods(out)
        if "stagemap" in out:
            out["stagemap"] = out["stagemap"][: max(T - 1, 0)]
        for d in out["factors"].values():
            for k, v in d.get("normalizations", {}).items():
                d["normalizations"][k] = v[:T]
    elif kind == "remove_measurements":
        gone = [arg] if isinstance(arg, str) else list(arg)
        for d in out["factors"].values():
            d["measurements"] = [[m for m in ms if m not in gone] for ms in d["measurements"]]
            for k, v in d.get("normalizations", {}).items():
                d["normalizations"][k] = [
                    {m: x for m, x in n.items() if m not in gone} for n in v]
    elif kind == "remove_controls":
        gone = [arg] if isinstance(arg, str) else list(arg)
        out["controls"] = [c for c in out["controls"] if c not in gone]
    elif kind == "switch_translog_to_linear":
        for d in out["factors"].values():
            if d["transition_function"] == "translog":
                d["transition_function"] = "linear"
    elif kind == "switch_linear_to_translog":
        for d in out["factors"].values():
            if d["transition_function"] == "linear":
                d["transition_function"] = "translog"
    elif kind == "reduce_n_periods":
        for d in out["factors"].values():
            d["measurements"] = d["measurements"][:arg]
            for k, v in d.get("normalizations", {}).items():
                d["normalizations"][k] = v[:arg]
        if "stagemap" in out:
            out["stagemap"] = out["stagemap"][: arg - 1]
    else:
        raise KeyError(kind)
    return out


def facts(md):
    """What a specification says, independent of how the dictionary is laid out."""
    T = O.n_periods(md)

    def norms(f, k):
        v = list(md["factors"][f].get("normalizations", {}).get(k, []))
        return v + [{}] * (T - len(v))

    a = O.anchoring(md)
    return {
        "factors": O.latent(md), "observed factors": O.observed(md), "controls": O.controls(md),
        "periods": T, "stages": list(O.stagemap(md)),
        "measurements": [O.measured(md, t) for t in range(T)],
        "transitions": [O.trans_kind(md, f) for f in O.latent(md)],
        "normalized loadings": [norms(f, "loadings") for f in O.latent(md)],
        "normalized intercepts": [norms(f, "intercepts") for f in O.latent(md)],
        "anchoring": a if a["outcomes"] else None,
        "options": dict(md["estimation_options"]),
    }


def call(md, op, params):
    import skillmodels.utilities as u

    fn = getattr(u, op[0])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if op[0].startswith("switch"):
            return fn(md, params) if params is not None else fn(md)
        first = (md, op[1]) if op[0] == "reduce_n_periods" else (op[1], md)
        return fn(*first, params) if params is not None else fn(*first)


def table(ctx, md, labels=None, shuffle=0):
    labels = list(labels if labels is not None else O.param_labels(md))
    if shuffle:
        labels = labels[shuffle % len(labels):] + labels[: shuffle % len(labels)]
        labels = labels[::-1]
    idx = pd.MultiIndex.from_tuples(labels, names=["category", "period", "name1", "name2"])
    v = np.empty(len(labels), dtype=obj(ctx))
    for i, l in enumerate(labels):
        v[i] = ctx.real(name_of(l), -2, 2)
    df = pd.DataFrame({"value": v}, index=idx)
    df["lower_bound"] = [float(nice(("lo", l), -9, -3)) for l in labels]
    df["upper_bound"] = [float(nice(("up", l), 3, 9)) for l in labels]
    return df


def same(ctx, md, op, new, params, before):
    want_md = edit(md, op)
    got, want = facts(new), facts(want_md)
    for k in want:
        ctx.check(k, got[k] == want[k])
    if params is None:
        return
    labels = set(O.param_labels(want_md))
    have = [tuple(l) for l in params.index]
    ctx.check("each parameter of the new model once",
              len(have) == len(labels) and set(have) == labels)
    old = {tuple(l): i for i, l in enumerate(before.index)}
    for i, l in enumerate(have):
        if l not in labels:
            continue
        g = [params["value"].iloc[i], params["lower_bound"].iloc[i],
             params["upper_bound"].iloc[i]]
        if l in old:
            j = old[l]
            ctx.equal(name_of(l), [g[0]], [before["value"].iloc[j]])
            ctx.check(f"bounds of {name_of(l)}", g[1] == before["lower_bound"].iloc[j]
                      and g[2] == before["upper_bound"].iloc[j])
        else:
            ctx.equal(f"new {name_of(l)}", [g[0]], [ctx.pin(0.05)])
            ctx.check(f"no bounds on new {name_of(l)}", g[1] == -math.inf and g[2] == math.inf)


OPS = [
    ("three_norm", ["remove_factors", "a"]), ("three_norm", ["remove_factors", ["b", "a"]]),
    ("three_norm", ["remove_factors", ["c"]]), ("three_norm", ["extract_factors", "b"]),
    ("three_norm", ["extract_factors", ["a", "c"]]), ("three_norm", ["extract_factors", ["b", "c"]]),
    ("mixed_stages", ["extract_factors", "a"]), ("mixed_stages", ["remove_factors", "b"]),
    ("mixed_stages", ["extract_factors", ["c", "a"]]),
    ("two_late", ["remove_factors", "a"]), ("anch_swapped", ["remove_factors", "b"]),
    ("anch_late", ["remove_factors", "a"]), ("anch", ["remove_factors", "a"]),
    ("shared", ["remove_factors", "a"]), ("odd_names", ["remove_factors", "x"]),
    ("odd_const", ["remove_factors", "class"]), ("overlap", ["remove_factors", "a"]),
    ("overlap", ["remove_controls", "x1"]), ("overlap", ["remove_measurements", "y"]),
    ("stages4", ["extract_factors", ["b"]]),
    ("three_norm", ["remove_measurements", "ya2"]),
    ("three_norm", ["remove_measurements", ["yc1", "ya2", "yb1"]]),
    ("same_meas", ["remove_measurements", "y2"]), ("shared", ["remove_measurements", ["y2"]]),
    ("three", ["remove_measurements", ["yc2", "yc1"]]),
    ("three", ["remove_controls", "x1"]), ("three", ["remove_controls", ["x1", "x2"]]),
    ("three", ["remove_controls", ["x2"]]), ("anch_second", ["remove_controls", "x1"]),
    ("two_late", ["switch_translog_to_linear", None]), ("obs", ["switch_translog_to_linear", None]),
    ("anch_late", ["switch_translog_to_linear", None]), ("one", ["switch_translog_to_linear", None]),
    ("two_late", ["switch_linear_to_translog", None]), ("obs", ["switch_linear_to_translog", None]),
    ("three", ["switch_linear_to_translog", None]), ("mix", ["switch_linear_to_translog", None]),
    ("three_norm", ["reduce_n_periods", 2]), ("three_norm", ["reduce_n_periods", 3]),
    ("three_norm", ["reduce_n_periods", 4]), ("stages6", ["reduce_n_periods", 4]),
    ("mixed_stages", ["reduce_n_periods", 2]), ("anch_late", ["reduce_n_periods", 2]),
    ("two", ["reduce_n_periods", 1]),
    ("wide12", ["remove_factors", ["f1", "f11"]]), ("wide12", ["extract_factors", "f12"]),
    ("wide12", ["remove_factors", "f12"]), ("long12", ["reduce_n_periods", 10]),
    ("long12", ["switch_linear_to_translog", None]),
    ("meas12", ["remove_measurements", ["y1", "y12"]]), ("meas12", ["remove_measurements", "y11"]),
    ("wide12", ["remove_controls", "x10"]), ("four", ["remove_factors", ["b"]]),
    ("four", ["extract_factors", ["b", "d"]]),
]


@harness(
    "C23", "edits", configs=[dict(model=m, op=o, shuffle=i) for i, (m, o) in enumerate(OPS)],
    functions=[U + f for f in (
        "remove_factors", "extract_factors", "remove_measurements", "remove_controls",
        "switch_translog_to_linear", "switch_linear_to_translog", "reduce_n_periods")],
    bounds="50 edits of 18 model structures; every parameter value symbolic, parameter tables in "
           "rotated and reversed row order",
)
def edits(ctx, cfg):
    md = base(cfg["model"])
    before = table(ctx, md, shuffle=cfg["shuffle"])
    new, params = call(md, cfg["op"], before.copy(deep=True))
    same(ctx, md, cfg["op"], new, params, before)
    same(ctx, md, cfg["op"], call(base(cfg["model"]), cfg["op"], None), None, None)
    got = [tuple(l) for l in params.index]
    from checks.common import params_index, process

    ctx.check("rows in the order of the new model",
              got == [tuple(l) for l in params_index(process(edit(md, cfg["op"])))])


@harness(
    "C23", "chains",
    configs=[dict(model=m, ops=o) for m, o in [
        ("three_norm", [["remove_factors", "a"], ["reduce_n_periods", 2], ["remove_controls", "x1"]]),
        ("anch_late", [["switch_translog_to_linear", None], ["switch_linear_to_translog", None]]),
        ("three", [["remove_measurements", "ya2"], ["extract_factors", ["a", "b"]],
                   ["switch_linear_to_translog", None], ["reduce_n_periods", 2]]),
        ("two_late", [["reduce_n_periods", 2], ["switch_linear_to_translog", None],
                      ["switch_translog_to_linear", None]])]],
    functions=[U + "remove_factors", U + "reduce_n_periods", U + "switch_linear_to_translog"],
    bounds="4 sequences of 2-4 edits; parameters symbolic",
)
def chains(ctx, cfg):
    md = base(cfg["model"])
    params = table(ctx, md, shuffle=3)
    for op in cfg["ops"]:
        new, np_ = call(md, op, params.copy(deep=True))
        same(ctx, md, op, new, np_, params)
        md, params = new, np_


@harness(
    "C23", "updates",
    configs=[dict(model="two", other=["one"]), dict(model="anch", other=["two", "one"]),
             dict(model="two", other=["mix", "two"]), dict(model="two", other=[]),
             dict(model="obs", other=["lin_obs", "obs", "one"])],
    functions=[U + "update_parameter_values"],
    bounds="updates from 0-3 other parameter tables that overlap in part; all values symbolic",
)
def updates(ctx, cfg):
    import skillmodels.utilities as u

    params = table(ctx, models.model(cfg["model"]), shuffle=2)
    others, want = [], {tuple(l): v for l, v in zip(params.index, params["value"])}
    for k, m in enumerate(cfg["other"]):
        o = table(ctx, models.model(m), shuffle=5 + k)
        v = np.empty(len(o), dtype=obj(ctx))
        for i, l in enumerate(o.index):
            v[i] = ctx.real(f"other {k} {name_of(l)}", -2, 2)
            if tuple(l) in want:
                want[tuple(l)] = v[i]
        o["value"] = v
        others.append(o)
    arg = others[0] if len(others) == 1 else others
    out = u.update_parameter_values(params.copy(deep=True), arg)
    ctx.check("same rows", [tuple(l) for l in out.index] == [tuple(l) for l in params.index])
    for l, g in zip(out.index, out["value"]):
        ctx.equal(name_of(l), [g], [want[tuple(l)]])
