"""C22: interventions shift exactly the chosen factor, from the chosen period on."""
from checks import models, oracle as O
from checks.c21_simulation import ASSUME, FUN, simulate, verify
from symx.engine import harness


@harness(
    "C22", "policies",
    configs=[dict(model=m, n=n, policies=p) for m, n, p in [
        ("one", 2, [["a", 0, 0]]),
        ("one", 2, [["a", 0, 1]]),
        ("two", 2, [["b", 0, 0]]),
        ("two", 2, [["b", 0, 0], ["a", 0, 0]]),
        ("three", 1, [["b", 1, 1]]),
        ("three", 1, [["c", 1, 0], ["a", 0, 0]]),
        ("two_late", 2, [["b", 1, 1]]),
        ("two_late", 1, [["a", 1, 0], ["a", 1, 0], ["b", 0, 0]]),
        ("two_late", 1, [["a", 1, 0], ["a", 1, 1]]),
        ("two_late", 1, [["a", 1, 0], ["a", 0, 0]]),
        ("anch_second", 1, [["b", 0, 0]]),
        ("anch_swapped", 2, [["a", 0, 0]]),
        ("obs2", 2, [["a", 1, 1]]),
        ("odd_const", 1, [["2nd x", 0, 0], ["class", 0, 1]]),
        ("mix", 2, [["a", 0, 1]]),
        ("mix2", 1, [["b", 0, 0]]),
        ("two", 2, []), ("one3", 1, [["a", 0, 1], ["a", 1, 1]]),
        ("two", 2, [["b", 0, 1]]), ("three", 1, [["c", 0, 1], ["a", 0, 1]]),
        ("mix2", 1, [["a", 0, 1], ["b", 0, 0]]),
        ("long12", 1, [["a", 10, 1], ["b", 2, 0]]), ("long12", 1, [["b", 1, 0], ["a", 11 - 1, 0]]),
        ("wide12", 1, [["f10", 0, 1], ["f1", 0, 0]])]],
    functions=FUN,
    bounds="11 model structures (up to 12 factors or periods), 1-2 individuals, 0-3 interventions before the last period; effect "
           "sizes, positive standard deviations, draws and all parameters symbolic; interventions "
           "with and without noise",
    assumptions=ASSUME + ["interventions in the last period are outside the claim"],
)
def policies(ctx, cfg):
    md = models.model(cfg["model"])
    n, ps = cfg["n"], []
    for k, (f, t, noisy) in enumerate(cfg["policies"]):
        ps.append({"factor": f, "period": t, "effect_size": ctx.real(f"effect {k}", -2, 2),
                   "standard_deviation": ctx.real(f"sd {k}", 0.25, 2) if noisy else 0})
    orig = [dict(p) for p in ps]

    def shift(t, f):
        mine = [p for p in orig if p["factor"] == f and p["period"] == t]
        return (sum((p["effect_size"] for p in mine), 0),
                [p["standard_deviation"] for p in mine if not isinstance(
                    p["standard_deviation"], int)])

    verify(ctx, md, n, *simulate(ctx, md, n, policies=ps or None), shift=shift)


@harness(
    "C22", "negative",
    configs=[dict(model="one"), dict(model="two")],
    functions=FUN,
    bounds="2 model structures; the standard deviation is symbolic over (-2, 2)",
    assumptions=ASSUME,
)
def negative(ctx, cfg):
    md = models.model(cfg["model"])
    sd = ctx.real("sd", -2, 2)
    ps = [{"factor": "a", "period": 0, "effect_size": ctx.real("effect", -2, 2),
           "standard_deviation": sd}]
    try:
        simulate(ctx, md, 2, policies=ps)
        raised = False
    except ValueError:
        raised = True
    ctx.check("refused iff negative", ctx.iff(sd < 0, raised))
