"""C17: data reach the filter at the right individual, period and variable."""
import math

import numpy as np

from checks import models, oracle as O
from checks.common import panel, panel_values, process
from symx.engine import harness

FUN = ["skillmodels.process_data.process_data", "skillmodels.process_data.pre_process_data"]

# how the same panel can be presented: ids, period labels, row order, absent rows, surplus
FORMS = {
    "plain": {},
    "shuffled": dict(order=lambda r: r[::2] + r[1::2][::-1]),
    "labels": dict(ids=[30, 4, 11, 100, 9, 10, 2, 1, 20, 3, 12, 21],
                   periods=[1990, 1995, 2003, 2004, 2010]),
    "digits": dict(ids=[30, 4, 11, 100, 9, 10, 2, 1, 20, 3, 12, 21], periods=list(range(8, 20))),
    "strings": dict(ids=["z", "b", "k", "10", "9", "100", "a", "B", "é", "2", "-", "ab"],
                    order=lambda r: r[::-1]),
    "unbalanced": dict(drop={(1, 1)}, ids=[5, 9, 7]),
    "unbalanced2": dict(drop={(0, 1), (2, 0)}, order=lambda r: r[::-1]),
    "filtered_early": dict(early=1),
    "filtered_person": dict(person=True, ids=[5, 2, 9]),
    "late_rows": dict(late=1),
}


def present(ctx, md, vals, n, form):
    """The frame and the order in which individuals are expected."""
    import pandas as pd

    f = FORMS[form]
    T = O.n_periods(md)
    ids = (f.get("ids") or list(range(n)))[:n]
    pers = (f.get("periods") or list(range(T)))[:T]
    df = panel(ctx, md, vals, n, ids=ids, periods=pers, order=f.get("order"),
               drop=f.get("drop", ()), extra=["note"])
    if f.get("late"):
        more = df.xs(pers[-1], level=1, drop_level=False).rename(
            index={pers[-1]: pers[-1] + 1}, level=1)
        df = pd.concat([df, more])
    if f.get("early"):
        more = df.xs(pers[0], level=1, drop_level=False).rename(
            index={pers[0]: pers[0] - 1}, level=1)
        df = pd.concat([more, df])
        df = df[df.index.get_level_values(1) >= pers[0]]
    if f.get("person"):
        more = df.xs(ids[1], level=0, drop_level=False).rename(index={ids[1]: 3}, level=0)
        df = pd.concat([more, df])
        df = df[df.index.get_level_values(0) != 3]
    return df, sorted(range(n), key=lambda i: ids[i]), f.get("drop", ())


@harness(
    "C17", "arrays",
    configs=[dict(model=m, form=f, n=3) for m, f in [
        ("two", "plain"), ("two", "shuffled"), ("two", "labels"), ("two", "strings"),
        ("two", "unbalanced"), ("two", "unbalanced2"), ("two", "filtered_early"),
        ("two", "filtered_person"), ("two", "late_rows"), ("obs", "shuffled"),
        ("obs2", "labels"), ("anch_swapped", "strings"), ("anch_second", "unbalanced"),
        ("three", "shuffled"), ("three", "labels"), ("same_meas", "labels"),
        ("anch_late", "shuffled"), ("odd_names", "labels"), ("odd_const", "shuffled"),
        ("overlap", "shuffled"), ("overlap", "labels"), ("single", "strings"), ("meas12", "shuffled"),
        ("wide12", "labels"), ("long12", "unbalanced"), ("long12", "digits")]]
    + [dict(model="two", form=f, n=12) for f in ("plain", "shuffled", "labels", "digits", "strings")],
    thorough=[dict(model=m, form=f, n=3) for m in ("three", "shared", "anch_both", "one3",
                                                  "two_late") for f in FORMS],
    functions=FUN,
    bounds="13 model structures, 3 and 12 individuals, 2-3 and 12 periods, 10 ways to present the same panel "
           "(row order, id and period labels, absent rows, surplus periods, filtered frames); all "
           "cell values symbolic, one cell per configuration present or missing symbolically",
)
def arrays(ctx, cfg):
    from skillmodels.process_data import process_data

    md = models.model(cfg["model"])
    model = process(md)
    n, T = cfg["n"], O.n_periods(md)
    v0 = O.measured(md, 0)[0][0]
    vals = panel_values(ctx, md, n, flags=[(1, 0, v0)])
    df, order, drop = present(ctx, md, vals, n, cfg["form"])
    for k in list(vals):
        if (k[0], k[1]) in drop:
            vals[k] = math.nan
    try:
        meas, cont, obs = process_data(
            df, model["labels"], model["update_info"], model["anchoring"])
    except ValueError as e:
        if "no variance" in str(e):
            from symx.engine import HarnessSkip

            raise HarnessSkip()
        raise
    meas, cont, obs = np.array(meas), np.array(cont), np.array(obs)
    ups = {u[:2]: u for u in O.updates(md)}
    ctx.check("shape", meas.shape == (len(ups), n)
              and cont.shape == (T, n, len(O.controls(md)))
              and obs.shape == (T, n, len(O.observed(md))))
    for k, key in enumerate(model["update_info"].index):
        ctx.equal(f"{key}", meas[k], [vals[(i, key[0], ups[key][4])] for i in order])
    for t in range(T):
        for r, i in enumerate(order):
            if (i, t) in drop:
                continue
            ctx.equal(f"controls {t} {i}", cont[t, r],
                      [1 if c == "constant" else vals[(i, t, c)] for c in O.controls(md)])
            if O.observed(md):
                ctx.equal(f"observed {t} {i}", obs[t, r], [vals[(i, t, c)]
                                                           for c in O.observed(md)])
