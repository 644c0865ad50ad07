"""C10: parameters are looked up by label; tables with other labels are refused."""
import numpy as np
import pandas as pd

from checks import models, oracle as O
from checks.c13_likelihood import FUN
from checks.common import no_ranges, panel, panel_values, params_df, theta
from symx.engine import harness

ORDERS = {
    "reversed": lambda l: l[::-1],
    "interleaved": lambda l: l[1::2] + l[::2],
    "sorted": lambda l: sorted(l, key=repr),
    "by name2": lambda l: sorted(l, key=lambda x: (x[3], x[1], x[0], x[2])),
}


@harness(
    "C10", "order",
    configs=[dict(model=m, order=o, what=w) for m, o, w in [
        ("two", "reversed", "loglike"), ("mix2", "interleaved", "loglike"),
        ("anch_second", "sorted", "loglike"), ("obs", "by name2", "loglike"),
        ("two", "sorted", "debug_loglike"), ("mix2", "by name2", "debug_loglike"),
        ("anch", "interleaved", "filtered"), ("two", "reversed", "filtered"),
        ("anch_second", "by name2", "anchored"), ("three", "interleaved", "loglike"),
        ("long12", "sorted", "loglike"), ("four", "sorted", "loglike"),
        ("wide12", "sorted", "loglike")]],
    thorough=[dict(model=m, order=o, what="loglike") for m in ("three", "shared", "custom2")
              for o in ORDERS],
    functions=FUN + ["skillmodels.filtered_states.get_filtered_states"],
    bounds="10 model structures, 4 row orders plus an extra column; every parameter and data value "
           "symbolic; 2 individuals",
)
def order(ctx, cfg):
    from skillmodels.filtered_states import anchor_states_df, get_filtered_states
    from skillmodels.likelihood_function import get_maximization_inputs

    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP)
    vals = panel_values(ctx, md, 2)
    df = panel(ctx, md, vals, 2)
    th = theta(ctx, md)
    labels = O.param_labels(md)
    base = params_df(ctx, labels, th)
    other = params_df(ctx, labels, th, order=ORDERS[cfg["order"]])
    other.insert(0, "comment", [f"row {i}" for i in range(len(other))])
    out = []
    for par in (base, other):
        with no_ranges(ctx):
            if cfg["what"] == "filtered":
                r = get_filtered_states(model_dict=md, data=df, params=par)
                out.append([r[k]["states"][f].to_numpy() for f in O.latent(md)
                            for k in ("anchored_states", "unanchored_states")])
            elif cfg["what"] == "anchored":
                fr = pd.DataFrame({"period": [0, 1], **{
                    f: np.array([ctx.real(f"s{f}0"), ctx.real(f"s{f}1")]) for f in O.latent(md)}})
                r = anchor_states_df(states_df=fr, model_dict=md, params=par)
                out.append([r[f].to_numpy() for f in O.latent(md)])
            else:
                r = get_maximization_inputs(model_dict=md, data=df)[cfg["what"]](par)
                out.append([r["contributions"], np.array([r["value"]])])
    for i, (a, b) in enumerate(zip(*out)):
        ctx.equal(f"output {i}", b, a)


@harness(
    "C10", "mismatch",
    configs=[dict(model="two", what="loglike"), dict(model="mix2", what="debug_loglike"),
             dict(model="anch", what="loglike_and_gradient"), dict(model="two", what="gradient"),
             dict(model="one", what="jacobian")],
    functions=["skillmodels.likelihood_function.get_maximization_inputs"],
    bounds="4 model structures; the missing, the additional and the duplicated row are chosen "
           "symbolically among all rows (up to 6 positions explored each)",
)
def mismatch(ctx, cfg):
    from skillmodels.likelihood_function import get_maximization_inputs

    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP)
    df = panel(ctx, md, panel_values(ctx, md, 2, pin=True), 2)
    th = theta(ctx, md)
    labels = O.param_labels(md)
    kind = ctx.choice("kind", ["missing", "extra", "duplicate", "renamed"])
    pos = ctx.choice("row", list(range(0, len(labels), max(1, len(labels) // 5))))
    lab = labels[pos]
    if kind == "missing":
        labels = labels[:pos] + labels[pos + 1:]
    elif kind == "extra":
        new = lab[:3] + (lab[3] + "_",)
        th[new] = ctx.real("extra")
        labels = labels + [new]
    elif kind == "renamed":
        new = (lab[0], lab[1] + 7, lab[2], lab[3])
        th[new] = th[lab]
        labels = labels[:pos] + [new] + labels[pos + 1:]
    else:
        labels = labels + [lab]
    f = get_maximization_inputs(model_dict=md, data=df)[cfg["what"]]
    try:
        f(params_df(ctx, labels, th))
        refused = False
    except ValueError:
        refused = True
    ctx.check(f"table with a {kind} row is refused", refused)
