"""C21: simulated data obey the equations of the model."""
import itertools

import numpy as np

from checks import models, oracle as O
from checks.c01_update import gram
from checks.c16_debug import table
from checks.common import no_ranges, obj, panel, panel_values, params_df, theta
from symx import npsym
from symx.engine import harness

FUN = ["skillmodels.simulate_data.simulate_dataset", "skillmodels.kalman_filters.transform_sigma_points",
       "skillmodels.parse_params.parse_params", "skillmodels.process_data.process_data",
       "skillmodels.filtered_states.anchor_states_df"]
ASSUME = ["random draws are arbitrary: a normal draw is its mean plus a symbolic deviation with the "
          "requested covariance; a draw from a finite set branches over its elements"]


class Draws:
    """Stand-in for the random number generators of numpy."""

    def __init__(self, ctx):
        self.ctx, self.pool, self.labels, self.groups = ctx, [], [], 0

    def one(self, cov):
        """Deviations (one vector) with the given covariance (nested list)."""
        out = []
        self.groups += 1
        for j in range(len(cov)):
            k = len(self.pool)
            lo = 0.05 + (k * 0.6180339887) % 1
            e = self.ctx.real(f"draw {k}", lo, lo + 0.004)
            self.pool.append(dict(e=e, cov=cov, j=j, group=self.groups, used=False))
            out.append(e)
        return out

    def __call__(self, name, a, k):
        if name == "choice":
            return self.pick(*a, **k)
        if name == "multivariate_normal":
            return self.multi(*a, **k)
        if name == "normal":
            return self.uni(*a, **k)
        if name in ("standard_normal", "randn"):
            size = k.get("size", a if name == "randn" else (a[0] if a else None))
            return self.uni(0, 1, size if size != () else None)
        raise NotImplementedError(f"random draws with {name}")

    def multi(self, mean, cov, size=None, **_):
        cov, mean = np.array(cov), np.array(mean)
        d = len(mean)
        shape = () if size is None else tuple(np.atleast_1d(size))
        out = np.empty(shape + (d,), dtype=obj(self.ctx))
        c = [[cov[i, j] for j in range(d)] for i in range(d)]
        for ix in np.ndindex(*shape):
            e = self.one(c)
            for j in range(d):
                out[ix + (j,)] = mean[j] + e[j]
        return out

    def uni(self, loc=0.0, scale=1.0, size=None):
        loc, scale = np.array(loc), np.array(scale)
        shape = np.broadcast_shapes(loc.shape, scale.shape)
        shape = shape if size is None else tuple(np.atleast_1d(size))
        L, S = np.broadcast_to(loc, shape), np.broadcast_to(scale, shape)
        out = np.empty(shape, dtype=obj(self.ctx))
        for ix in np.ndindex(*shape):
            s = S[ix]
            out[ix] = L[ix] + self.one([[s * s]])[0]
        return out if shape else out[()]

    def pick(self, a, size=None, replace=True, p=None):
        opts = list(range(int(a))) if np.ndim(a) == 0 else list(a)
        self.p = None if p is None else list(np.array(p))
        if size is None:
            return opts[self._next(len(opts))]
        return np.array([opts[self._next(len(opts))] for _ in range(int(np.prod(size)))]
                        ).reshape(size)

    def _next(self, n):
        i = self.ctx.choice(f"element {len(self.labels)}", list(range(n)))
        self.labels.append(i)
        return i

    # ----------------------------------------------------------------- matching
    def explain(self, label, r, sds):
        """r is a sum of independent unused draws with the standard deviations sds."""
        ctx = self.ctx
        x = ctx.numeric(r)
        want = [ctx.numeric(s) for s in sds]
        free = [d for d in self.pool if not d["used"]]
        for d in free:
            d["v"] = ctx.numeric(d["e"])
            d["var"] = ctx.numeric(d["cov"][d["j"]][d["j"]])
        for combo in itertools.permutations(free, len(sds)):
            for scaled in itertools.product([False, True], repeat=len(sds)):
                tot, ok = 0.0, True
                for d, s, sc in zip(combo, want, scaled):
                    tot += d["v"] * (s if sc else 1)
                    ok = ok and abs(d["var"] * (s * s if sc else 1) - s * s) < 1e-7
                if ok and abs(tot - x) < 1e-6:
                    total = 0
                    for d, s, sc in zip(combo, sds, scaled):
                        d["used"] = True
                        total = total + (d["e"] * s if sc else d["e"])
                        var = d["cov"][d["j"]][d["j"]]
                        ctx.equal(f"variance {label}", [var * s * s if sc else var], [s * s])
                        for j, c in enumerate(d["cov"][d["j"]]):
                            if j != d["j"]:
                                ctx.equal(f"independence {label}", [c], [0])
                    ctx.equal(label, [r], [total])
                    return
        ctx.check(f"{label}: not a model value plus a draw with the right variance", False)

    def explain_vector(self, label, r, L, extra=()):
        """r is a draw with covariance LL' (or L times independent standard draws).

        extra: (position, standard deviation) of independent draws that are added.
        """
        ctx = self.ctx
        n = len(r)
        if extra:
            return self.explain_noisy_vector(label, r, L, extra)
        C = gram([[L[j][i] for j in range(n)] for i in range(n)])
        x = [ctx.numeric(v) for v in r]
        groups = {}
        for d in self.pool:
            if not d["used"]:
                groups.setdefault(d["group"], []).append(d)
        for g in groups.values():
            if len(g) == n and all(abs(ctx.numeric(d["e"]) - x[i]) < 1e-6
                                   for i, d in enumerate(g)):
                for d in g:
                    d["used"] = True
                ctx.equal(label, r, [d["e"] for d in g])
                ctx.equal(f"covariance {label}", g[0]["cov"], C)
                return
        # independent standard draws combined by the code
        free = [d for d in self.pool if not d["used"]]
        z, rest = [], list(x)
        Ln = [[ctx.numeric(L[i][j]) for j in range(n)] for i in range(n)]
        for i in range(n):
            v = (x[i] - sum(Ln[i][j] * z[j][1] for j in range(i))) / Ln[i][i]
            hit = [d for d in free if abs(ctx.numeric(d["e"]) - v) < 1e-6]
            if not hit:
                ctx.check(f"{label}: not a draw with the right distribution", False)
                return
            z.append((hit[0], v))
        for d, _ in z:
            d["used"] = True
            ctx.equal(f"variance {label}", [d["cov"][d["j"]][d["j"]]], [1])
        ctx.equal(label, r, [sum(L[i][j] * z[j][0]["e"] for j in range(i + 1))
                             for i in range(n)])


    def explain_noisy_vector(self, label, r, L, extra):
        ctx, n = self.ctx, len(r)
        x = [ctx.numeric(v) for v in r]
        want = [ctx.numeric(s) for _, s in extra]
        free = [d for d in self.pool if not d["used"]]
        for d in free:
            d["v"] = ctx.numeric(d["e"])
            d["var"] = ctx.numeric(d["cov"][d["j"]][d["j"]])
        groups = {}
        for d in free:
            groups.setdefault(d["group"], []).append(d)
        fits = [[d for d in free if min(abs(d["var"] - 1), abs(d["var"] - w * w)) < 1e-7]
                for w in want]
        for combo in itertools.product(*fits):
            mine = {id(d) for d in combo}
            if len(mine) < len(combo):
                continue
            for scaled in itertools.product([False, True], repeat=len(extra)):
                if any(abs(d["var"] * (w * w if sc else 1) - w * w) > 1e-7
                       for d, w, sc in zip(combo, want, scaled)):
                    continue
                y = list(x)
                for (i, _), d, w, sc in zip(extra, combo, want, scaled):
                    y[i] -= d["v"] * (w if sc else 1)
                rest = [g for g in groups.values() if not any(id(d) in mine for d in g)]
                fit = any(len(g) == n and all(abs(d["v"] - y[i]) < 1e-6 for i, d in enumerate(g))
                          for g in rest)
                if not fit:
                    z = []
                    for i in range(n):
                        v = (y[i] - sum(ctx.numeric(L[i][j]) * z[j] for j in range(i))
                             ) / ctx.numeric(L[i][i])
                        z.append(v)
                    fit = all(any(abs(d["v"] - v) < 1e-6 for d in free if id(d) not in mine)
                              for v in z)
                if fit:
                    left = list(r)
                    for (i, s), d, sc in zip(extra, combo, scaled):
                        d["used"] = True
                        left[i] = left[i] - (d["e"] * s if sc else d["e"])
                        var = d["cov"][d["j"]][d["j"]]
                        ctx.equal(f"variance {label}", [var * s * s if sc else var], [s * s])
                        for j, c in enumerate(d["cov"][d["j"]]):
                            if j != d["j"]:
                                ctx.equal(f"independence {label}", [c], [0])
                    return self.explain_vector(label, left, L)
        ctx.check(f"{label}: not a draw with the right distribution", False)


def simulate(ctx, md, n, policies=None, form=None, watch=None, order=lambda l: l[::-1],
             free=("all",), ranges=False):
    """Run the real simulation on symbolic draws; returns everything a check needs."""
    from skillmodels.simulate_data import simulate_dataset

    th = theta(ctx, md, free=free)
    vals = {k: v for k, v in panel_values(ctx, md, n).items()
            if k[2] in md.get("controls", []) or k[2] in O.observed(md)}
    draws = Draws(ctx)
    par = params_df(ctx, O.param_labels(md), th, order=order)
    kw = dict(data=panel(ctx, md, vals, n) if vals else None, n_obs=None if vals else n)
    if form is not None:
        from checks.c17_alignment import present

        kw["data"], ids, _ = present(ctx, md, vals, n, form)
        vals = {(r, t, c): vals[(ids[r], t, c)] for r in range(n)
                for t in range(O.n_periods(md)) for c in {k[2] for k in vals}}
    if watch is not None:
        from checks.c24_purity import snap

        watch["params"] = (snap(par), par)
        if vals:
            watch["data"] = (snap(kw["data"]), kw["data"])
    npsym.RANDOM["stub"] = draws
    try:
        with no_ranges(ctx, not ranges):
            out = simulate_dataset(model_dict=md, params=par, policies=policies, **kw)
    finally:
        npsym.RANDOM["stub"] = None
    return th, vals, draws, out


def verify(ctx, md, n, th, vals, draws, out, shift=None):
    """shift(t, f) -> (fixed effect, [standard deviations]) of interventions."""
    shift = shift or (lambda t, f: (0, []))
    T, fs = O.n_periods(md), O.latent(md)
    st = {f: table(out["unanchored_states"]["states"], ["id", "period"], f) for f in fs}
    an = {f: table(out["anchored_states"]["states"], ["id", "period"], f) for f in fs}
    cells = {(i, t) for i in range(n) for t in range(T)}
    ctx.check("rows", set(st[fs[0]]) == cells and set(an[fs[0]]) == cells)
    meas = out["measurements"]
    if O.n_mix(md) > 1:
        ctx.equal("probabilities", draws.p,
                  [th[("mixture_weights", 0, f"mixture_{m}", "-")] for m in range(O.n_mix(md))])
    for i in range(n):
        m = draws.labels[i] if O.n_mix(md) > 1 else 0
        mean = [th[("initial_states", 0, f"mixture_{m}", f)] for f in fs]
        sh = [shift(0, f) for f in fs]
        r = [st[f][(i, 0)] - mu - s[0] for f, mu, s in zip(fs, mean, sh)]
        draws.explain_vector(f"start {i}", r, O.chol_params(md, th, m),
                             extra=[(k, sd) for k, s in enumerate(sh) for sd in s[1]])
    for t in range(T):
        for i in range(n):
            x = {f: st[f][(i, t)] for f in fs}
            for f in fs:
                s, c = O.anchor_of(md, th, t, f)
                ctx.equal(f"anchored {f} {t} {i}", [an[f][(i, t)]], [x[f] * s + c])
            if t + 1 < T:
                nx = O.next_states(ctx, md, th, t, x,
                                   {f: vals[(i, t, f)] for f in O.observed(md)})
                for f in fs:
                    e, sds = shift(t + 1, f)
                    draws.explain(f"shock {f} {t} {i}", st[f][(i, t + 1)] - nx[f] - e,
                                  [th[("shock_sds", t, f, "-")]] + sds)
    for t, v, load, _, _ in O.updates(md):
        tab = table(meas, ["id", "period"], v)
        for i in range(n):
            mu = sum(th[("loadings", t, v, f)] * st[f][(i, t)] for f in load)
            mu = mu + th[("controls", t, v, "constant")]
            for c in md.get("controls", []):
                mu = mu + th[("controls", t, v, c)] * vals[(i, t, c)]
            draws.explain(f"measurement {v} {t} {i}", tab[(i, t)] - mu,
                          [th[("meas_sds", t, v, "-")]])
    used = {(t, v) for t, v, *_ in O.updates(md)}
    for t in range(T):
        for v in {v for _, v, *_ in O.updates(md)}:
            if (t, v) not in used:
                tab = table(meas, ["id", "period"], v)
                ctx.equal(f"unmeasured {v} {t}", [tab[(i, t)] for i in range(n)], [np.nan] * n)


@harness(
    "C21", "equations",
    configs=[dict(model=m, n=n) for m, n in [
        ("one", 2), ("one3", 2), ("two", 2), ("two_late", 1), ("shared", 2), ("obs", 2),
        ("obs2", 1), ("mix", 2), ("mix2", 2), ("mix3", 1), ("mixobs", 2), ("anch", 2),
        ("anch_second", 1), ("anch_swapped", 2), ("anch_noconst", 1), ("three", 1),
        ("custom", 1), ("custom2", 1), ("custom4", 1), ("odd_const", 1), ("overlap", 2), ("single", 2), ("single_mix", 2), ("same_meas", 1), ("anch_late", 1), ("two", 3), ("hole_anch", 1),
        ("hole", 1), ("long12", 1), ("mix12", 1), ("wide12", 1), ("meas12", 1), ("four", 1),
        ("two", 12)]],
    thorough=[dict(model=m, n=3) for m in ("three_norm", "three", "anch_mix", "ces_mix",
                                           "one3", "mix3")],
    functions=FUN,
    bounds="28 model structures (up to 12 factors, periods, mixtures), 1-3 and 12 individuals; every parameter, control, observed "
           "factor and random draw symbolic; mixture membership branches",
    assumptions=ASSUME,
)
def equations(ctx, cfg):
    md = models.model(cfg["model"])
    n = cfg["n"]
    verify(ctx, md, n, *simulate(ctx, md, n))
