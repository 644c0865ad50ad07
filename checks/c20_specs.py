"""C20: invalid model specifications are refused, valid ones are accepted."""
from checks import models, oracle as O
from symx.engine import harness

FUN = ["skillmodels.process_model.process_model", "skillmodels.check_model.check_model"]
REFUSALS = (ValueError, KeyError, TypeError, AttributeError, IndexError, AssertionError)


def attempt(md):
    """(refused, processed model)"""
    from skillmodels.process_model import process_model

    try:
        return False, process_model(md)
    except REFUSALS:
        return True, None


def periods_model(T, second):
    fs = [["a", "linear", [["y1"]] * T]]
    if second is not None:
        fs.append(["b", "linear", [["z1"]] * second])
    return models.spec(fs)


@harness(
    "C20", "stagemap",
    configs=[dict(T=T, L=L, second=s) for T, L, s in [
        (2, 1, None), (3, 2, None), (3, 2, 2), (4, 3, None), (4, 3, 1),
        (2, 0, None), (2, 2, None), (3, 1, None), (3, 3, 2)]],
    thorough=[dict(T=5, L=4, second=None), dict(T=5, L=3, second=2), dict(T=4, L=4, second=1)],
    functions=FUN,
    bounds="2-4 periods (thorough: 5), stagemaps of length 0-3 (thorough: 4) whose entries are "
           "symbolic integers between -2 and 4; one or two factors with different numbers of "
           "periods",
    max_paths=4000,
)
def stagemap(ctx, cfg):
    md = periods_model(cfg["T"], cfg["second"])
    sm = [ctx.int(f"stage {t}", -2, 4) for t in range(cfg["L"])]
    md["stagemap"] = sm
    refused, model = attempt(md)
    ok = [cfg["L"] == cfg["T"] - 1]
    if sm:
        ok.append(sm[0] == 0)
    for a, b in zip(sm[:-1], sm[1:]):
        ok.append(ctx.any([b == a, b == a + 1]))
    ctx.check("refused iff not a valid sequence of stages", ctx.iff(ctx.neg(ctx.all(ok)), refused))
    if not refused:
        got = list(model["labels"]["stagemap"])
        ctx.check("one stage per transition", len(got) == len(sm))
        for t, (g, s) in enumerate(zip(got, sm)):
            ctx.check(f"stage of transition {t}", g == s)


NORM_BASE = {"a": [["y1", "y2"], ["y1"], ["y3", "y2"]], "b": [["z1", "y2"], ["z1"]]}


def norm_model():
    return models.spec([["a", "linear", NORM_BASE["a"]], ["b", "constant", NORM_BASE["b"]]])


@harness(
    "C20", "normalizations",
    configs=[dict(entries=e) for e in [
        # (factor, kind, period, variable)
        [["a", "loadings", 0, "y1"]],
        [["a", "loadings", 2, "y3"], ["b", "loadings", 0, "y2"]],
        [["b", "loadings", 1, "z1"], ["b", "intercepts", 1, "z1"]],
        [["a", "intercepts", 0, "y2"], ["a", "intercepts", 2, "y2"]],
        [["a", "loadings", 0, "y1"], ["a", "loadings", 0, "y2"], ["a", "loadings", 1, "y1"]],
        [["a", "loadings", 1, "y2"]],      # measured in other periods only
        [["a", "intercepts", 1, "y3"]],
        [["b", "loadings", 0, "y1"]],      # measures the other factor only
        [["b", "intercepts", 0, "y1"]],
        [["b", "loadings", 1, "y2"]],      # y2 measures b in period 0 only
        [["a", "loadings", 0, "nope"]],
        [["a", "loadings", 0, "y1"], ["b", "intercepts", 1, "nope"]],
        [["b", "loadings", 2, "z1"]],      # b has no measurements in period 2
        []]],
    functions=FUN,
    bounds="a three-period model of two factors with a shared measurement; 0-3 normalizations, "
           "present or not, with symbolic values",
)
def normalizations(ctx, cfg):
    md = norm_model()
    bad = []
    for k, (f, kind, t, var) in enumerate(cfg["entries"]):
        v = ctx.real(f"value {k}", -2, 2)
        ni = md["factors"][f].setdefault("normalizations", {})
        lst = ni.setdefault(kind, [])
        while len(lst) <= t:
            lst.append({})
        lst[t][var] = v
        there = t < len(NORM_BASE[f]) and var in NORM_BASE[f][t]
        bad.append(not there)
        if kind == "loadings":
            bad.append(v == 0)
    refused, model = attempt(md)
    ctx.check("refused iff zero loading or not a measurement", ctx.iff(ctx.any(bad), refused))
    if not refused:
        for f in md["factors"]:
            for kind in ("loadings", "intercepts"):
                got = model["normalizations"][f][kind]
                ctx.check(f"{f} {kind}: one entry per period", len(got) == 3)
                for t in range(3):
                    want = {e[3]: k for k, e in enumerate(cfg["entries"])
                            if e[:3] == [f, kind, t]}
                    ctx.check(f"{f} {kind} {t} variables", set(got[t]) == set(want))
                    for var, k in want.items():
                        ctx.equal(f"{f} {kind} {t} {var}", [got[t][var]],
                                  [ctx.real(f"value {k}", -2, 2)])


FLAGS = ["free_loadings", "free_constant", "free_controls"]
BOOLS = [True, False, 1, 0.0, "yes", None]
NAMES = ["Q", 3, ("Q", 1), 2.5, None, ["Q"]]
LISTS = [[["y1"], ["y1"]], [["y1"], ("y1",)], (["y1"], ["y1"]), ["y1", "y1"], [["y1"], "y1"],
         {0: ["y1"], 1: ["y1"]}]
NORMLISTS = [[{"y1": 1}], [{}, {"y1": 2}], {"y1": 1}, [["y1"]], [{"y1": 1}, None], ({"y1": 1},), []]


@harness(
    "C20", "types",
    configs=[dict(what=w) for w in
             ["flags", "outcome", "measurement", "measurements", "loadings", "intercepts",
              "unknown", "transition"]],
    functions=FUN,
    bounds="every combination of the types listed in the harness (up to 216 per configuration)",
    max_paths=400,
)
def types(ctx, cfg):
    what = cfg["what"]
    md = models.spec([["a", "linear", [["y1"], ["y1"]]], ["b", "linear", [["z1"], ["z1"]]]])
    if what == "flags":
        vals = [ctx.choice(f, BOOLS) for f in FLAGS]
        md["anchoring"] = dict(zip(FLAGS, vals), outcomes={"a": "Q"})
        want = not all(isinstance(v, bool) for v in vals)
    elif what == "outcome":
        i = ctx.choice("outcome", list(range(len(NAMES))))
        j = ctx.choice("second outcome", list(range(len(NAMES))))
        md["anchoring"] = {"outcomes": {"a": NAMES[i], "b": NAMES[j]}}
        want = i > 2 or j > 2
    elif what == "measurement":
        i = ctx.choice("name", list(range(len(NAMES))))
        f = ctx.choice("factor", ["a", "b"])
        t = ctx.choice("period", [0, 1])
        md["factors"][f]["measurements"][t] = [NAMES[i], f"{f} other"]
        want = i > 2
    elif what == "measurements":
        i = ctx.choice("lists", list(range(len(LISTS))))
        f = ctx.choice("factor", ["a", "b"])
        md["factors"][f]["measurements"] = LISTS[i]
        want = i > 0
    elif what in ("loadings", "intercepts"):
        i = ctx.choice("lists", list(range(len(NORMLISTS))))
        md["factors"]["a"]["normalizations"] = {what: NORMLISTS[i]}
        want = i not in (0, 1, 6)
    elif what == "unknown":
        i = ctx.choice("outcomes", [0, 1, 2, 3])
        md["anchoring"] = {"outcomes": [{"a": "Q"}, {"c": "Q"}, ["Q"], "Q"][i]}
        want = i > 0
    else:
        i = ctx.choice("function", [0, 1, 2, 3, 4])

        def plain(a, params):
            return a

        md["factors"]["b"]["transition_function"] = [
            "translog", "log_ces", "no_such_function", plain, 3][i]
        want = i > 1
    refused, _ = attempt(md)
    ctx.check(f"refused iff invalid {what}", refused == want)


@harness(
    "C20", "family", configs=[dict(model=m) for m in sorted(models.MODELS())],
    functions=FUN,
    bounds="all model structures used anywhere in the checks",
)
def family(ctx, cfg):
    md = models.model(cfg["model"])
    refused, model = attempt(md)
    ctx.check("accepted", not refused)
    if refused:
        return
    lab, dim = model["labels"], model["dimensions"]
    ctx.check("latent factors", list(lab["latent_factors"]) == O.latent(md))
    ctx.check("observed factors", list(lab["observed_factors"]) == O.observed(md))
    ctx.check("controls", list(lab["controls"]) == O.controls(md))
    ctx.check("periods", list(lab["periods"]) == list(range(O.n_periods(md))))
    ctx.check("stages", list(lab["stagemap"]) == list(O.stagemap(md)))
    ctx.check("mixtures", dim["n_mixtures"] == O.n_mix(md))
    ui = model["update_info"]
    for t in range(O.n_periods(md)):
        want = {(v, p): set(fs) for s, v, fs, p, _ in O.updates(md) if s == t}
        got = {}
        for (s, v), row in ui.iterrows():
            if s == t:
                got[(v, row["purpose"])] = {f for f in O.latent(md) if row[f]}
        ctx.check(f"measurement system of period {t}", got == want)
