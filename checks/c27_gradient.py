"""C27: the gradient is the derivative of the log likelihood and finite with missing data."""
import numpy as np

from checks import models, oracle as O
from checks.c13_likelihood import FUN
from checks.common import panel, panel_values, params_df, params_index, process, theta
from symx.engine import harness


def setup(ctx, cfg):
    from skillmodels.likelihood_function import get_maximization_inputs

    md = models.model(cfg["model"])
    md["estimation_options"].update(models.NOCLIP if not cfg.get("clip") else {
        "clipping_lower_bound": -30, "clipping_upper_bound": 5})
    n = cfg.get("n", 2)
    vals = panel_values(ctx, md, n, nan=[tuple(k) for k in cfg.get("nan", [])],
                        flags=[tuple(k) for k in cfg.get("flags", [])],
                        pin=cfg.get("pin", False),
                        controls_nan=[tuple(k) for k in cfg.get("controls_nan", [])])
    th = theta(ctx, md, free=cfg.get("free", ["all"]))
    kw = {"jacobian_type": cfg["jac"]} if "jac" in cfg else {}
    inp = get_maximization_inputs(model_dict=md, data=panel(
        ctx, md, vals, n, drop=[tuple(k) for k in cfg.get("drop", [])]), **kw)
    return md, th, inp


def numeric_derivative(md, th, inp, label):
    """Richardson-extrapolated central difference."""
    from types import SimpleNamespace

    ctx = SimpleNamespace(symbolic=False)

    def f(h):
        moved = dict(th)
        moved[label] = th[label] + h
        return inp["loglike"](params_df(ctx, O.param_labels(md), moved))["value"]

    def d(h):
        return (f(h) - f(-h)) / (2 * h)

    return (4 * d(5e-5) - d(1e-4)) / 3


GROUPS = ["controls", "initial_states", "transition", "shock_sds", "initial_cholcovs"]


@harness(
    "C27", "derivative",
    configs=[dict(model="one", free=[g]) for g in GROUPS]
    + [dict(model="one", free=["meas_sds"], pin=True),
       dict(model="one", free=["loadings"], pin=True),
       dict(model="mix", free=["controls"], pin=True),
       dict(model="mix", free=["initial_states"], pin=True),
       dict(model="two", free=["controls"], pin=True),
       dict(model="two", free=["initial_states"], pin=True),
       dict(model="lin_obs", free=["controls"], pin=True),
       dict(model="one", free=["controls"], n=3, nan=[[1, 0, "ya1"]])],
    thorough=[dict(model="anch", free=["controls"], pin=True),
              dict(model="one", free=["meas_sds"]), dict(model="one", free=["loadings"]),
              dict(model="mix", free=["controls"]), dict(model="two", free=["controls"])],
    functions=FUN + ["the gradient that jax derives from it"],
    assumptions=["the derivative is taken of the log likelihood term that the real code "
                 "produces, by the rules of calculus and implicit differentiation of R'R = M'M"],
    bounds="4 models with 1-2 factors, 1-2 mixtures, 2 periods, 2-3 individuals; data symbolic or "
           "fixed, one parameter group symbolic at a time, others fixed numbers; clipping off",
)
def derivative(ctx, cfg):
    md, th, inp = setup(ctx, cfg)
    par = params_df(ctx, O.param_labels(md), th, order=lambda l: l[::-1])
    grad = np.asarray(inp["gradient"](par))
    value = inp["loglike"](par)["value"]
    idx = [tuple(l) for l in params_index(process(md))]
    ctx.check("one entry per parameter", grad.shape == (len(idx),))
    ctx.no_nan("finite", grad)
    if ctx.symbolic:
        value = ctx.V.lift(value)
    for i, l in enumerate(idx):
        if l[0] not in cfg["free"]:
            continue
        if ctx.symbolic:
            want = ctx.V.SymReal(ctx.T.diff([value.t], ctx.V.lift(th[l]).t)[0], value.nan)
        else:
            want = numeric_derivative(md, th, inp, l)
        ctx.equal(f"derivative by {l}", [grad[i]], [want], tol=1e-5)


@harness(
    "C27", "finite",
    configs=[dict(model=m, n=n, flags=f, nan=na) for m, n, f, na in [
        ("one", 3, [[0, 0, "ya1"], [2, 1, "ya1"]], []),
        ("two", 3, [[0, 0, "ya1"], [0, 1, "yb1"]], [[2, 1, "ya1"]]),
        ("mix", 3, [[1, 0, "ya1"], [1, 1, "ya1"]], []),
        ("anch", 3, [[0, 0, "Q"], [1, 1, "ya1"]], []),
        ("anch_mix", 3, [[0, 1, "Q"]], [[1, 0, "yb1"]]),
        ("obs", 3, [[0, 0, "yb1"]], []),
        ("two_late", 3, [[0, 0, "yb1"], [1, 2, "ya1"]], [[2, 1, "ya1"]])]]
    + [dict(model="lin_obs", n=3, controls_nan=[[1, 1, "x1"]]),
       dict(model="two", n=3, drop=[[1, 1]]),
       dict(model="anch_second", n=3, drop=[[0, 1]], controls_nan=[[2, 0, "x1"]])],
    thorough=[dict(model="three", n=3, flags=[[0, 0, "ya1"], [1, 0, "yc1"], [2, 1, "yb1"]],
                   nan=[])],
    functions=FUN + ["the gradient that jax derives from it"],
    bounds="9 models, 3 individuals, fixed and branching missing cells, missing controls, absent "
           "rows; every parameter and data "
           "value symbolic",
)
def finite(ctx, cfg):
    md, th, inp = setup(ctx, cfg)
    par = params_df(ctx, O.param_labels(md), th)
    both = inp["loglike_and_gradient"](par)
    ctx.no_nan("gradient", both[1])
    ctx.no_nan("value", [both[0]["value"]])


@harness(
    "C27", "interfaces",
    configs=[dict(model="one"), dict(model="two"), dict(model="mix"), dict(model="anch"),
             dict(model="one", clip=True), dict(model="two", jac="jacfwd"),
             dict(model="lin_obs", jac="jacfwd")],
    functions=FUN + ["skillmodels.likelihood_function.get_maximization_inputs"],
    bounds="5 models, 2 individuals; every parameter and data value symbolic; clipping on and off",
)
def interfaces(ctx, cfg):
    md, th, inp = setup(ctx, cfg)
    par = params_df(ctx, O.param_labels(md), th, order=lambda l: l[3:] + l[:3])
    grad = inp["gradient"](par)
    jac = inp["jacobian"](par)
    crit, grad2 = inp["loglike_and_gradient"](par)
    plain = inp["loglike"](par)
    ctx.equal("gradient", grad2, grad)
    if "jac" not in cfg:
        ctx.equal("jacobian", jac, grad)
    else:
        ctx.check("jacobian shape", np.shape(jac) == np.shape(grad))
    ctx.equal("value", [crit["value"]], [plain["value"]])
    ctx.equal("contributions", crit["contributions"], plain["contributions"])
