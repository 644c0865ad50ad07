"""Harness driver: symbolic exploration of paths, decision of goals, replay, evidence."""
import json
import math
import os
import random
import subprocess
import sys
import time
import traceback
from contextlib import contextmanager

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HARNESSES = {}  # prop -> list of Harness


class Harness:
    def __init__(self, prop, name, fn, configs, thorough, functions, assumptions, bounds,
                 max_paths, samples):
        self.prop, self.name, self.fn = prop, name, fn
        self.configs, self.thorough = configs, thorough
        self.functions = functions
        self.assumptions = assumptions
        self.bounds = bounds
        self.max_paths = max_paths


def harness(prop, name, configs=None, thorough=None, functions=(), assumptions=(), bounds="",
            max_paths=600):
    def deco(fn):
        h = Harness(prop, name, fn, configs or [{}], thorough or [], list(functions),
                    list(assumptions), bounds, max_paths, None)
        HARNESSES.setdefault(prop, []).append(h)
        return fn

    return deco


class HarnessSkip(Exception):
    """Input outside the documented domain: the path is dropped (an assume)."""


class ConcreteFailure(Exception):
    pass


# ------------------------------------------------------------------ contexts
class BaseCtx:
    symbolic = False

    def flag(self, name):
        return bool(self.choice(name, [False, True]))

    def maybe_nan(self, name, lo=-10, hi=10, p=None):
        """A real, or a missing value (float nan); the pattern is explored by forking."""
        if self.flag("nan:" + name):
            return math.nan
        return self.real(name, lo, hi)

    def reals(self, prefix, shape, lo=-10, hi=10):
        out = np.empty(shape, dtype=object if self.symbolic else float)
        for ix in np.ndindex(*out.shape):
            out[ix] = self.real(prefix + "_" + "_".join(map(str, ix)), lo, hi)
        return out


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, schedule, rng):
        from . import terms as T
        from . import values as V

        self.T, self.V = T, V
        self.schedule = list(schedule)
        self.pos = 0
        self.taken = []
        self.pending = []
        self.pc = []
        self.goals = []
        self.records = []  # (label, array of SymReal) for translator validation
        self.choices = {}
        self.nans = {}
        self.forks = 0
        self.assumes = []
        self._fcache = {}
        self.pinned = {}

    # inputs
    def real(self, name, lo=-10, hi=10):
        return self.V.SymReal(self.T.var(name, lo, hi))

    def nanreal(self, name, lo=-10, hi=10):
        b = self.T.bvar("nan:" + name)
        self.nans[name] = b
        return self.V.SymReal(self.T.var(name, lo, hi), b)

    def int(self, name, lo, hi):
        return self.V.SymReal(self.T.var(name, lo, hi, integer=True))

    def pin(self, value):
        """An exact constant that still flows through the symbolic domain."""
        return self.V.lift(value)

    def choice(self, name, options):
        n = len(options)
        if n == 1:
            self.choices[name] = 0
            return options[0]
        if self.pos < len(self.schedule):
            i = self.schedule[self.pos]
        else:
            i = 0
            for j in range(1, n):
                self.pending.append(self.taken + [j])
        self.pos += 1
        self.taken.append(i)
        self.choices[name] = i
        return options[i]

    def fork(self, t):
        from . import solve

        key = t.id
        for p in self.pc:
            if p is t:
                return True
            if p.op == "not" and p.args[0] is t:
                return False
        self.forks += 1
        if self.pos < len(self.schedule):
            v = bool(self.schedule[self.pos])
        else:
            can_t = self._feasible(t)
            can_f = self._feasible(self.T.not_(t)) if can_t else True
            if can_t and can_f:
                v = True
                self.pending.append(self.taken + [0])
            else:
                v = can_t
        self.pos += 1
        self.taken.append(int(v))
        self.pc.append(t if v else self.T.not_(t))
        return v

    def _feasible(self, t):
        from . import solve

        if solve.pick_condition(self.pc + [t]) is not None:
            # conditions below ite: decide by cases
            for _ in solve.cases([self.T.FALSE], self.pc + [t], limit=200):
                return True
            return False
        return solve.feasible(self.pc + [t])

    def assume(self, cond, note=None):
        t = self.V.liftb(cond)
        if t is self.T.FALSE:
            raise HarnessSkip()
        if t is not self.T.TRUE:
            self.pc.append(t)

    # goals
    def record(self, label, got):
        a = self.V.obj_array(_to_obj(got))
        self.records.append((label, a))
        return a

    def equal(self, label, got, want, tol=None, nan="match"):
        """got and want agree elementwise (NaN exactly where the other is NaN)."""
        T, V = self.T, self.V
        g = self.record(label, got)
        w = V.obj_array(_to_obj(want))
        if g.shape != w.shape:
            self.goals.append((f"{label}: shape {g.shape} != {w.shape}", T.FALSE))
            return
        for ix in np.ndindex(*g.shape):
            a, b = g[ix], w[ix]
            if isinstance(a, V.SymBool) or isinstance(b, V.SymBool):
                self.goals.append((f"{label}{list(ix)}", T.eq(V.liftb(a), V.liftb(b))))
                continue
            same_nan = T.eq(a.nan, b.nan)
            val = T.or_(a.nan, T.eq(a.t, b.t)) if a.nan is not T.FALSE else T.eq(a.t, b.t)
            if a.nan is T.FALSE and b.nan is T.FALSE:
                goal = T.eq(a.t, b.t)
            else:
                # guard the value equality by an ite so that NaN payloads do not matter
                goal = T.and_(
                    same_nan,
                    T.eq(T.ite(a.nan, T.ZERO, a.t), T.ite(b.nan, T.ZERO, b.t)))
            if goal is not T.TRUE:
                self.goals.append((f"{label}{list(ix)}", goal))
            else:
                self.goals.append((f"{label}{list(ix)}", T.TRUE))

    def check(self, label, cond):
        t = self.V.liftb(cond)
        self.goals.append((label, t))

    def numeric(self, x):
        """x at a fixed generic point (only used to find out which draw is which)."""
        from . import solve

        x = self.V.lift(x)
        env = self.__dict__.setdefault("_env", {})
        rng = self.__dict__.setdefault("_env_rng", random.Random(7))
        for n in self.T._vars:
            if n not in env:
                lo, hi = self.T._vars[n][0].lo, self.T._vars[n][0].hi
                lo, hi = max(lo, -10), min(hi, 10)
                env[n] = lo + (hi - lo) * rng.random()
        for t in self.T.subterms([x.t]):
            if t.op == "bv":
                env.setdefault(t.val, False)
        return self.T.evaluate([x.t], env)[0]

    def no_nan(self, label, got):
        a = self.record(label, got)
        for ix in np.ndindex(*a.shape):
            self.goals.append((f"{label}{list(ix)} finite", self.T.not_(a[ix].nan)))

    def gram(self, u):
        """U'U; for (a trailing block of) the R of a QR decomposition by its contract."""
        n = len(u[0])
        u = [[self.V.lift(u[i][j]) for j in range(n)] for i in range(len(u))]
        base = self._qr_block(u) if len(u) == n else None
        if base is None and len(u) == n and u[0][0].t.op == "chol":
            got = self._chol_block(u)
            if got is not None:
                return got
        if base is None:
            return [[sum((u[k][i] * u[k][j] for k in range(1, len(u))), u[0][i] * u[0][j])
                     for j in range(n)] for i in range(n)]
        flat, nr, nc, off, nan = base
        T, out = self.T, []
        for i in range(n):
            row = []
            for j in range(n):
                t = T.ZERO
                for r in range(nr):
                    t = T.add(t, T.mul(flat[r * nc + i + off], flat[r * nc + j + off]))
                for k in range(off):
                    m = self._mat
                    t = T.sub(t, T.mul(T.qr_entry(m, k, i + off), T.qr_entry(m, k, j + off)))
                row.append(self.V.SymReal(t, nan))
            out.append(row)
        return out

    def _chol_block(self, u):
        """U'U for (a trailing block of) an upper Cholesky factor by its contract."""
        T, n, t0 = self.T, len(u), u[0][0].t
        size, off, off2 = t0.val
        if off != off2 or off + n != size:
            return None
        for i in range(n):
            for j in range(n):
                e = u[i][j]
                if j < i and e.t is not T.ZERO:
                    return None
                if j >= i and (e.t.op != "chol" or e.t.args != t0.args
                               or e.t.val != (size, i + off, j + off)
                               or e.nan is not u[0][0].nan):
                    return None
        rows = [t0.args[r * size:(r + 1) * size] for r in range(size)]
        out = []
        for i in range(off, size):
            row = []
            for j in range(off, size):
                t = rows[i][j] if i >= j else rows[j][i]
                for k in range(off):
                    t = T.sub(t, T.mul(T.chol_entry(rows, k, i), T.chol_entry(rows, k, j)))
                row.append(self.V.SymReal(t, u[0][0].nan))
            out.append(row)
        return out

    def _qr_block(self, u):
        n = len(u)
        t0 = u[0][0].t
        if t0.op != "qr":
            return None
        nr, nc, off, off2 = t0.val
        if off != off2 or off + n != nc:
            return None
        for i in range(n):
            for j in range(n):
                e = u[i][j]
                if j < i:
                    if e.t is not self.T.ZERO:
                        return None
                elif (e.t.op != "qr" or e.t.args != t0.args
                      or e.t.val != (nr, nc, i + off, j + off) or e.nan is not u[0][0].nan):
                    return None
        self._mat = self.T.Mat([t0.args[r * nc:(r + 1) * nc] for r in range(nr)])
        return t0.args, nr, nc, off, u[0][0].nan

    def ite(self, c, a, b):
        from . import jaxsym

        t = self.V.liftb(c)
        return jaxsym._ite(t, self.V.lift(a), self.V.lift(b))

    def isnan(self, x):
        return self.V.SymBool(self.V.lift(x).nan)

    def all(self, conds):
        return self.V.SymBool(self.T.and_(*[self.V.liftb(c) for c in conds]))

    def any(self, conds):
        return self.V.SymBool(self.T.or_(*[self.V.liftb(c) for c in conds]))

    def iff(self, a, b):
        return self.V.SymBool(self.T.eq(self.V.liftb(a), self.V.liftb(b)))

    def neg(self, c):
        return self.V.SymBool(self.T.not_(self.V.liftb(c)))

    def sqrt(self, x):
        return self.V.lift(x).sqrt()

    def exp(self, x):
        return self.V.lift(x).exp()

    def log(self, x):
        return self.V.lift(x).log()

    def pi(self):
        return self.V.SymReal(self.T.pi())

    def max(self, a, b):
        a, b = self.V.lift(a), self.V.lift(b)
        return self.V.SymReal(self.T.max_(a.t, b.t), self.T.or_(a.nan, b.nan))

    def fresh(self, name, lo=-10, hi=10):
        return self.real(name, lo, hi)


class ConCtx(BaseCtx):
    """Concrete replay: the same harness on ordinary floats, real code unpatched."""

    symbolic = False

    def __init__(self, values, bools, choices, defaults=None):
        self.values, self.bools, self.choices = values, bools, choices
        self.failures = []
        self.nchecks = 0
        self.records = []
        self.defaults = defaults

    def real(self, name, lo=-10, hi=10):
        v = self.values.get(name)
        if v is None:
            l, h = max(lo, -3), min(hi, 3)
            if l > h:
                l, h = lo, hi
            hsh = 5381
            for ch in name:
                hsh = (hsh * 33 + ord(ch)) & 0xFFFFFFFF
            v = l + (h - l) * ((hsh % 61) + 1) / 64
            self.values[name] = v
        return float(v)

    def nanreal(self, name, lo=-10, hi=10):
        v = self.real(name, lo, hi)
        return math.nan if self.bools.get("nan:" + name, False) else v

    def int(self, name, lo, hi):
        if name in self.values:
            return int(round(self.values[name]))
        return int(lo)

    def pin(self, value):
        return float(value)

    def choice(self, name, options):
        return options[self.choices.get(name, 0)]

    def assume(self, cond, note=None):
        if not bool(np.all(cond)):
            raise HarnessSkip()

    def record(self, label, got):
        a = np.asarray(got)
        a = a.astype(float) if a.dtype != bool else a
        self.records.append((label, a))
        return a

    def equal(self, label, got, want, tol=1e-6, nan="match"):
        tol = tol or 1e-6
        self.nchecks += 1
        try:
            g = self.record(label, got).astype(float)
            w = np.asarray(want).astype(float)
        except (TypeError, ValueError) as e:
            self.failures.append(f"{label}: {e}")
            return
        if g.shape != w.shape:
            self.failures.append(f"{label}: shape {g.shape} != {w.shape}")
            return
        ok = np.isclose(g, w, rtol=tol, atol=tol, equal_nan=True)
        if not ok.all():
            ix = tuple(int(i) for i in np.argwhere(~ok)[0]) if g.ndim else ()
            self.failures.append(f"{label}{list(ix)}: got {g[ix]!r}, expected {w[ix]!r}")

    def check(self, label, cond):
        self.nchecks += 1
        if not bool(np.all(cond)):
            self.failures.append(label)

    def numeric(self, x):
        return float(x)

    def no_nan(self, label, got):
        self.nchecks += 1
        g = self.record(label, got)
        if not np.isfinite(g).all():
            self.failures.append(f"{label}: not finite")

    def gram(self, u):
        u = np.asarray(u, dtype=float)
        return u.T @ u

    def ite(self, c, a, b):
        return a if c else b

    def isnan(self, x):
        return bool(np.isnan(x))

    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def neg(self, c):
        return not bool(c)

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def pi(self):
        return math.pi

    def max(self, a, b):
        return max(a, b)

    def fresh(self, name, lo=-10, hi=10):
        return self.real(name, lo, hi)


def _to_obj(x):
    if hasattr(x, "to_numpy"):
        return x.to_numpy()
    return np.asarray(x)


# ------------------------------------------------------------------ set-up
_READY = {"sym": False}


def prepare(symbolic):
    """Import the code under test from /repo (with the symbolic front ends if wanted)."""
    repo = os.environ.get("VERIF_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(0, repo)
    import warnings

    warnings.filterwarnings("ignore")
    import jax

    jax.config.update("jax_enable_x64", True)
    from . import npsym

    if symbolic and not _READY["sym"]:
        from . import jaxsym

        jaxsym.install()
        import pandas  # noqa: F401  (before numpy is wrapped)
        import scipy.stats  # noqa: F401
        import plotly.express  # noqa: F401

        npsym.install()
        from . import pdsym

        pdsym.install()
    npsym.install_random()
    import skillmodels  # noqa: F401

    mods = ["process_model", "check_model", "constraints", "params_index", "parse_params",
            "process_data", "kalman_filters", "clipping", "likelihood_function",
            "process_debug_data", "simulate_data", "filtered_states", "utilities",
            "transition_functions", "decorators", "correlation_heatmap",
            "visualize_transition_equations", "visualize_factor_distributions",
            "utils_plotting"]
    import importlib

    for m in mods:
        try:
            importlib.import_module("skillmodels." + m)
        except ModuleNotFoundError as e:
            if "skillmodels" not in str(e):
                raise
    assert skillmodels.__file__.startswith(repo), skillmodels.__file__
    if symbolic and not _READY["sym"]:
        for n, mod in list(sys.modules.items()):
            if n.startswith("skillmodels.") and mod is not None:
                npsym.shim_module(mod)
        _READY["sym"] = True


# --------------------------------------------------------------- one config run
@contextmanager
def sym_session(ctx):
    from . import jaxsym, npsym, values

    values.FORK = ctx.fork
    npsym.ACTIVE["on"] = True
    try:
        with jaxsym.session():
            yield
    finally:
        npsym.ACTIVE["on"] = False
        npsym.RANDOM["stub"] = None
        values.FORK = None


def run_concrete(h, cfg, values, bools, choices):
    """Run a harness concretely; returns (ctx, error text or None, skipped)."""
    from . import npsym

    ctx = ConCtx(dict(values), dict(bools), dict(choices))
    try:
        h.fn(ctx, cfg)
    except HarnessSkip:
        return ctx, None, True
    except Exception:
        return ctx, traceback.format_exc(limit=8), False
    finally:
        npsym.RANDOM["stub"] = None
    return ctx, None, False


def run_config(args):
    """Explore all paths of one harness configuration symbolically."""
    prop, hidx, cfg, seed, tier, budget = args
    from . import nf, solve, terms, values

    h = HARNESSES[prop][hidx]
    rng = random.Random(seed * 7919 + hash_cfg(cfg))
    t0 = time.time()
    solve.reset_stats()
    res = {
        "harness": h.name, "cfg": cfg, "paths": 0, "goals": 0, "forks": 0, "violations": [],
        "errors": [], "known": [], "validated": 0, "skipped": 0, "truncated": False, "sample": None,
        "prims": {}, "mismatch": [], "audit_skipped": 0,
    }
    stack = [[]]
    first = True
    while stack:
        if res["paths"] + res["skipped"] >= h.max_paths or time.time() - t0 > budget:
            res["truncated"] = True
            break
        sched = stack.pop()
        terms.reset()
        terms.Mat._tab.clear()
        nf.reset()
        values.reset_tokens()
        ctx = SymCtx(sched, rng)
        err = None
        try:
            with sym_session(ctx):
                h.fn(ctx, cfg)
        except HarnessSkip:
            res["skipped"] += 1
            stack.extend(ctx.pending)
            continue
        except Exception as e:
            err = e
            tb = traceback.format_exc(limit=12)
        stack.extend(ctx.pending)
        res["paths"] += 1
        res["forks"] += ctx.forks
        if err is not None:
            model = path_model(ctx, rng)
            if model is None:
                res["paths"] -= 1
                continue  # infeasible path
            if confirm(h, cfg, model, ctx.choices, res, f"raised {type(err).__name__}: {err}"):
                return finish(res, t0)
            if search(h, cfg, ctx, rng, res, f"raised {type(err).__name__}: {err}"):
                return finish(res, t0)
            res["errors"].append(f"{h.name} {cfg}: symbolic run failed: {tb}")
            return finish(res, t0)
        res["goals"] += len(ctx.goals)
        if not ctx.goals:
            continue

        def on_model(model, ctx=ctx):
            return confirm(h, cfg, model, ctx.choices, res, model.label)

        try:
            false_goals = [l for l, g in ctx.goals if g is terms.FALSE]
            if false_goals:
                for _ in range(4):
                    model = path_model(ctx, rng)
                    if model is None:
                        break
                    model.label = false_goals[0]
                    if on_model(model):
                        return finish(res, t0)
                else:
                    raise solve.Inconclusive(
                        f"goal {false_goals[:3]} is false but does not reproduce")
                if model is None:
                    continue
            if first:
                validate(h, cfg, ctx, rng, res)
                if res["violations"] or res["known"]:
                    return finish(res, t0)
            bad = solve.decide(ctx.goals, ctx.pc, rng, on_model)
            if bad:
                return finish(res, t0)
            if first:
                if tier != "none":
                    sub = [g for _, g in ctx.goals]
                    rng.shuffle(sub)
                    solve.audit(sub[:4], ctx.pc, timeout_ms=700)
                first = False
        except (solve.Inconclusive, nf.TooBig, nf.Unsupported, ZeroDivisionError,
                NotImplementedError, AssertionError, RecursionError) as e:
            if search(h, cfg, ctx, rng, res, f"undecided symbolically ({type(e).__name__})"):
                return finish(res, t0)
            res["errors"].append(f"{h.name} {cfg} choices={ctx.choices}: {type(e).__name__}: {e}"
                                 + ("" if isinstance(e, solve.Inconclusive) else traceback.format_exc(limit=6)))
            return finish(res, t0)
    from . import jaxsym

    res["prims"] = dict(jaxsym.PRIM_LOG)
    return finish(res, t0)


def finish(res, t0):
    from . import solve

    from . import values

    res["stats"] = dict(solve.STATS)
    res["tokens"], values.TOKEN_COUNT["n"] = values.TOKEN_COUNT["n"], 0
    res["wall_s"] = time.time() - t0
    return res


def hash_cfg(cfg):
    h = 5381
    for ch in json.dumps(cfg, sort_keys=True, default=str):
        h = (h * 33 + ord(ch)) & 0xFFFFFFFF
    return h


def path_model(ctx, rng):
    """A model of the path condition (reachability witness)."""
    from . import solve, terms as T
    from fractions import Fraction

    names = list(T._vars)
    pcs = list(ctx.pc)
    if solve.pick_condition(pcs) is not None:
        leaf = None
        for _, ps in solve.cases([T.FALSE], pcs, limit=500):
            leaf = ps
            break
        if leaf is None:
            return None
        pcs = leaf
    for attempt in range(4):
        e = solve.Enc()
        cs = [e.boolt(p) for p in pcs]
        pins = {n: solve.default_pin(n, rng, *T._vars[n], 0) for n in names}
        rel = sorted({t.val for t in T.subterms(pcs) if t.op == "v"}) if pcs else []
        for n in names:
            e.var(n)
        use = [n for n in names if n not in rel] if attempt else names
        r, m = solve.run(cs + e.ax + solve.pin_constraints(e, pins, use), 4000)
        if r == solve.z3.sat:
            mod = solve.extract(m, e, "path")
            for n in names:
                mod.values.setdefault(n, float(pins[n]))
            for n, b in ctx.nans.items():
                mod.bools.setdefault("nan:" + n, False)
            return mod
        if r == solve.z3.unsat and attempt:
            return None
    return None


def validate(h, cfg, ctx, rng, res):
    """Translator validation: the encoded outputs equal the real outputs at a witness."""
    from . import terms as T

    model = path_model(ctx, rng)
    if model is None:
        res["errors"].append(f"{h.name} {cfg}: no reachability witness for the path")
        return
    con, err, skipped = run_concrete(h, cfg, model.values, model.bools, ctx.choices)
    if err or skipped:
        if err and confirm(h, cfg, model, ctx.choices, res, "witness run raised"):
            return
        res["mismatch"].append(f"witness run failed: {err or 'skipped'}")
        return
    if con.failures:
        if confirm(h, cfg, model, ctx.choices, res, con.failures[0]):
            return
        res["mismatch"].append(f"witness run fails: {con.failures[:2]} values={model.values}")
        return
    env = dict(model.values)
    for t in T._table.values():
        if t.op == "bv":
            env[t.val] = model.bools.get(t.val, False)
    for n, v in model.values.items():
        env[n] = v
    ncmp = 0
    for (la, a), (lb, b) in zip(ctx.records, con.records):
        if la != lb or a.shape != b.shape:
            res["mismatch"].append(f"record {la}/{lb} shapes {a.shape} {b.shape}")
            return
        flat = [x for x in a.reshape(-1)]
        roots = []
        for x in flat:
            if hasattr(x, "nan"):
                roots += [x.t, x.nan]
            else:
                roots += [x.t, T.FALSE]
        if any(t.op == "fn" for t in T.subterms(roots)):
            continue
        vals = T.evaluate(roots, env) if roots else []
        bf = np.asarray(b).reshape(-1)
        for i in range(len(flat)):
            v, isn = vals[2 * i], vals[2 * i + 1]
            real = float(bf[i])
            if isn or real != real:
                if not (isn and real != real):
                    res["mismatch"].append(f"{la}[{i}] nan mismatch: {isn} {real}")
                    return
                continue
            if not math.isclose(float(v), real, rel_tol=1e-6, abs_tol=1e-6):
                # rows of R have an arbitrary sign; compare magnitudes there
                if not math.isclose(abs(float(v)), abs(real), rel_tol=1e-6, abs_tol=1e-6):
                    res["mismatch"].append(f"{la}[{i}] encoded {v} real {real}")
                    return
            ncmp += 1
    res["validated"] += 1
    if res["sample"] is None:
        res["sample"] = {
            "harness": h.name, "cfg": cfg,
            "witness": {k: round(float(v), 6) for k, v in list(model.values.items())[:12]},
            "outputs_compared": ncmp, "goals": [l for l, _ in ctx.goals[:6]],
        }


def confirm(h, cfg, model, choices, res, label):
    """Replay a counterexample in a fresh process against the unpatched code."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = f"{h.prop}_{h.name}_{abs(hash_cfg([cfg, sorted(choices.items()), sorted(model.values.items())])) % 10**8}.json"
    path = os.path.join(d, name)
    rec = {
        "property": h.prop, "harness": h.name, "cfg": cfg, "values": model.values,
        "bools": model.bools, "choices": choices, "label": str(label),
    }
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    try:
        out = subprocess.run(
            [sys.executable, os.path.join(VERIF, "run.py"), "--replay", path],
            capture_output=True, text=True, timeout=240, env=os.environ)
    except subprocess.TimeoutExpired:
        return False
    if out.returncode == 1:
        fails = [l for l in out.stdout.splitlines() if l.startswith("REPLAY-FAIL")]
        hit = known_match(h, cfg, fails)
        if hit is not None:
            res["known"].append(hit)
            os.unlink(path)
            return True
        res["violations"].append({"replay": path, "label": str(label), "detail": fails[:5],
                                  "harness": h.name, "cfg": cfg})
        return True
    os.unlink(path)
    return False


def known_match(h, cfg, fails):
    """The listed finding that explains every failure of this replay, if there is one."""
    import re

    for k in load_known(h.prop):
        if k["harness"] == h.name and k["cfg"] == cfg and fails and all(
                re.search(k["failure"], f) for f in fails):
            return k["id"]
    return None


def search(h, cfg, ctx, rng, res, why, tries=4):
    """Look for a concrete counterexample on a path the solver could not decide."""
    for _ in range(tries):
        model = path_model(ctx, rng)
        if model is None:
            return False
        con, err, skipped = run_concrete(h, cfg, model.values, model.bools, ctx.choices)
        if (err or con.failures) and not skipped:
            if confirm(h, cfg, model, ctx.choices, res, why):
                return True
    return False


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prepare(symbolic=False)
    hs = [h for h in HARNESSES[rec["property"]] if h.name == rec["harness"]]
    ctx, err, skipped = run_concrete(hs[0], rec["cfg"], rec["values"], rec["bools"], rec["choices"])
    if skipped:
        print("REPLAY-SKIPPED input outside the documented domain")
        return 3
    if err:
        print("REPLAY-FAIL exception:", " ".join(err.strip().splitlines()[-1].split()))
        print(err)
        return 1
    if ctx.failures:
        for f in ctx.failures[:10]:
            print("REPLAY-FAIL", f)
        return 1
    print(f"REPLAY-OK {ctx.nchecks} checks hold")
    return 0


# ---------------------------------------------------------------------- main
KNOWN = os.path.join(VERIF, "known_findings.json")


def load_known(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop]


def main(prop, tier, seed, workers=8, budget=None):
    import multiprocessing as mp

    t0 = time.time()
    prepare(symbolic=True)
    jobs = []
    budget = budget or (240 if tier == "quick" else 3000)
    limit = float(os.environ.get("VERIF_LIMIT", "780" if tier == "quick" else "14000"))
    for i, h in enumerate(HARNESSES[prop]):
        cfgs = list(h.configs) + (list(h.thorough) if tier == "thorough" else [])
        for c in cfgs:
            jobs.append((prop, i, c, seed, tier, budget))
    rng = random.Random(seed)
    results = []
    if workers <= 1 or len(jobs) == 1:
        for j in jobs:
            results.append(run_config(j))
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(workers, len(jobs)), maxtasksperchild=None) as pool:
            it = pool.imap_unordered(run_config, jobs, chunksize=1)
            while len(results) < len(jobs):
                try:
                    r = it.next(timeout=max(0.1, t0 + limit - time.time()))
                except mp.TimeoutError:
                    pool.terminate()
                    break
                results.append(r)
                if os.environ.get("VERIF_VERBOSE"):
                    print(f"  [{r['wall_s']:.1f}s] {r['harness']} {r['cfg']} paths {r['paths']} "
                          f"goals {r['goals']} err {len(r['errors'])}", flush=True)
                if r["violations"]:
                    pool.terminate()
                    break
    return report(prop, tier, seed, results, len(jobs), t0)


def report(prop, tier, seed, results, njobs, t0):
    viol = [v for r in results for v in r["violations"]]
    errs = [e for r in results for e in r["errors"]]
    trunc = [r for r in results if r["truncated"]]
    open_ = [r for r in results if r["errors"] or r["mismatch"] or r["truncated"]]
    undecided = len(open_) + (njobs - len(results))
    mism = [m for r in results for m in r["mismatch"]]
    stats = {}
    for r in results:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    prims = {}
    for r in results:
        for k, v in r["prims"].items():
            prims[k] = max(prims.get(k, 0), v)
    hs = HARNESSES[prop]
    paths = sum(r["paths"] for r in results)
    goals = sum(r["goals"] for r in results)
    coverage = {
        "explanation": (
            "Bounded symbolic execution of the real code; every goal decided over all values "
            "within the bounds by normalisation plus z3 (SMT)."),
        "states": paths,
        "transitions": sum(r["forks"] for r in results) + goals,
        "traces_validated_against_impl": sum(r["validated"] for r in results),
        "samples": [r["sample"] for r in results if r["sample"]][:6],
        "harness_configurations": njobs,
        "configurations_run": len(results),
        "symbolic_paths": paths,
        "goals": goals,
        "solver_queries": stats.get("queries", 0),
        "solver_unsat": stats.get("unsat", 0),
        "solver_sat": stats.get("sat", 0),
        "solver_unknown": stats.get("unknown", 0),
        "solver_seconds": round(stats.get("solver_s", 0.0), 3),
        "goals_closed_by_normal_form": stats.get("nf_closed", 0),
        "case_splits": stats.get("cases", 0),
        "raw_audits": stats.get("audits", 0),
        "raw_audits_unsat": stats.get("audit_unsat", 0),
        "goals_decided_on_slices_only": stats.get("slices", 0),
        "functions_encoded": sorted({f for h in hs for f in h.functions}),
        "jax_primitives_interpreted": sorted(prims),
        "bounds": {h.name: h.bounds for h in hs},
        "truncated_configurations": len(trunc),
        "undecided_configurations": [f"{r['harness']} {r['cfg']}" for r in open_],
        "configurations_not_reached_in_time": njobs - len(results),
        "values_routed_as_float_tokens": sum(r.get("tokens", 0) for r in results),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": coverage,
        "assumptions": sorted({a for h in hs for a in h.assumptions}) + [
            "real arithmetic: rounding and overflow of floats are outside the claim",
            "a float literal denotes the simple number it rounds (1/10, sqrt(2), 2*pi, ...)",
            "divisors met by the code are nonzero (generic points)",
        ],
        "wall_s": round(time.time() - t0, 2),
        "known_findings_hit": sorted({k for r in results for k in r["known"]}),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    hits = {k for r in results for k in r["known"]}
    for k in load_known(prop):
        if k["id"] in hits:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for v in viol:
        print(f"  {v['harness']} {v['cfg']}: {v['label']} {v['detail']}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
    if viol:
        return 1
    for e in errs:
        print("INCONCLUSIVE", e)
    for m in mism:
        print("TRANSLATOR-MISMATCH", m)
    for r in trunc:
        print("TRUNCATED", r["harness"], r["cfg"], "paths", r["paths"])
    print(f"{prop}: configs {len(results)}/{njobs} paths {paths} goals {goals} "
          f"queries {coverage['solver_queries']} solver {coverage['solver_seconds']}s "
          f"validated {coverage['traces_validated_against_impl']} wall {ev['wall_s']}s")
    if undecided:
        # the property held on everything explored; what was left open is printed above and
        # listed in the evidence. More than half open is no answer.
        print(f"UNDECIDED property={prop} configurations {undecided} of {njobs} "
              f"({njobs - len(results)} not reached in time)")
        if os.environ.get("VERIF_STRICT") or 2 * undecided > njobs:
            return 2
    return 0
