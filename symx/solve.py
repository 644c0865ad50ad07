"""Deciding goals: normal forms -> z3, case splits, models."""
import random
import time
from fractions import Fraction

from . import nf as N
from . import terms as T
from .z3load import load

z3 = load()

STATS = {
    "queries": 0,
    "unsat": 0,
    "sat": 0,
    "unknown": 0,
    "solver_s": 0.0,
    "nf_closed": 0,
    "audits": 0,
    "audit_unsat": 0,
    "slices": 0,
    "cases": 0,
}


def reset_stats():
    for k in STATS:
        STATS[k] = 0.0 if k == "solver_s" else 0


class Inconclusive(Exception):
    pass


def q(x):
    x = Fraction(x)
    return z3.Q(x.numerator, x.denominator)


class Enc:
    """z3 encoding of normal forms and bool terms, with atom axioms."""

    def __init__(self, bounds=True):
        self.ax = []
        self.vars = {}
        self.bvars = {}
        self.at = {}
        self.ex = {}
        self.dens = {}
        self.polyc = {}
        self.bounds = bounds

    def var(self, name):
        if name not in self.vars:
            t, integer = T._vars[name]
            if integer:
                iv = z3.Int(name)
                v = z3.ToReal(iv)
                self.vars[name] = iv
                key = iv
            else:
                v = z3.Real(name)
                self.vars[name] = v
            if t.lo > -T.INF:
                self.ax.append(v >= q(Fraction(t.lo)))
            if t.hi < T.INF:
                self.ax.append(v <= q(Fraction(t.hi)))
        v = self.vars[name]
        return z3.ToReal(v) if v.is_int() else v

    def bvar(self, name):
        if name not in self.bvars:
            self.bvars[name] = z3.Bool(name)
        return self.bvars[name]

    def atom(self, i):
        if i in self.at:
            return self.at[i]
        kind, data = N.S.atoms[i]
        if kind == "v":
            r = self.var(data)
            self.at[i] = r
            return r
        r = z3.Real(f"{kind}!{i}")
        self.at[i] = r
        if kind == "pi":
            self.ax += [r > q(Fraction(3141592653, 10**9)), r < q(Fraction(3141592654, 10**9))]
        elif kind == "sqrt":
            p = self.poly(N.S.polys[data])
            self.ax += [r * r == p, r >= 0, p >= 0]
        elif kind == "sgn":
            self.ax += [z3.Or(r == 1, r == -1)]
        elif kind == "log":
            b = self.rf(N.log_base(i))
            self.ax += [b > 0, r <= b - 1, (r > 0) == (b > 1), (r == 0) == (b == 1)]
        elif kind == "max":
            a, b = [self.rf(N.S.rflist[k]) for k in data]
            self.ax += [r >= a, r >= b, z3.Or(r == a, r == b)]
        elif kind == "abs":
            a = self.rf(N.S.rflist[data])
            self.ax += [r >= 0, z3.Or(r == a, r == -a)]
        elif kind == "fn":
            pass
        return r

    def expo(self, e):
        if e not in self.ex:
            r = z3.Real(f"exp!{e}")
            self.ex[e] = r
            x = self.rf(N.S.exps[e])
            self.ax += [r > 0, (x > 0) == (r > 1), (x == 0) == (r == 1), r >= 1 + x]
        return self.ex[e]

    def poly(self, p):
        key = id(p)
        terms = []
        for (pairs, e), v in p.items():
            fs = [q(v)] if v != 1 or (not pairs and not e) else []
            for a, x in pairs:
                z = self.atom(a)
                if x < 0:
                    # Laurent power: introduce the inverse
                    inv = self.inverse(a)
                    fs += [inv] * (-x)
                else:
                    fs += [z] * x
            if e:
                fs.append(self.expo(e))
            if not fs:
                fs = [q(1)]
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        if not terms:
            return q(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def inverse(self, a):
        k = ("inv", a)
        if k not in self.at:
            r = z3.Real(f"inv!{a}")
            self.at[k] = r
            self.ax.append(r * self.atom(a) == 1)
        return self.at[k]

    def den(self, i):
        if i not in self.dens:
            d = self.poly(N.S.polys[i])
            self.dens[i] = d
            self.ax.append(d != 0)
        return self.dens[i]

    def rf(self, r):
        n = self.poly(r.num)
        if not r.den:
            return n
        d = None
        for i, e in r.den:
            for _ in range(e):
                x = self.den(i)
                d = x if d is None else d * x
        return n / d

    def sign_pair(self, r):
        """(numerator, sign-carrying denominator or None) of an RF."""
        n = self.poly(r.num)
        d = None
        for i, e in r.den:
            x = self.den(i)
            if e % 2:
                d = x if d is None else d * x
        return n, d

    def boolt(self, t):
        op = t.op
        if op == "T":
            return z3.BoolVal(True)
        if op == "F":
            return z3.BoolVal(False)
        if op == "bv":
            return self.bvar(t.val)
        if op == "not":
            return z3.Not(self.boolt(t.args[0]))
        if op == "and":
            return z3.And([self.boolt(a) for a in t.args])
        if op == "eq":
            r = N.rf_sub(N.nf(t.args[0]), N.nf(t.args[1]))
            if N.is_zero(r):
                STATS["nf_closed"] += 1
                return z3.BoolVal(True)
            if r.is_const():
                return z3.BoolVal(False)
            for i, _ in r.den:
                self.den(i)
            return self.poly(r.num) == 0
        if op == "lt":
            r = N.rf_sub(N.nf(t.args[0]), N.nf(t.args[1]))
            if N.is_zero(r):
                return z3.BoolVal(False)
            if r.is_const():
                return z3.BoolVal(r.const_value() < 0)
            n, d = self.sign_pair(r)
            return (n if d is None else n * d) < 0
        raise AssertionError(op)


def run(constraints, timeout_ms, want_model=True):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for c in constraints:
        s.add(c)
    t0 = time.time()
    r = s.check()
    if r == z3.unknown and timeout_ms > 3000:
        s2 = z3.Tactic("qfnra-nlsat").solver()
        s2.set("timeout", timeout_ms)
        for c in constraints:
            s2.add(c)
        try:
            r2 = s2.check()
        except z3.Z3Exception:
            r2 = z3.unknown
        if r2 != z3.unknown:
            r, s = r2, s2
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t0
    STATS[str(r)] += 1
    return r, (s.model() if r == z3.sat and want_model else None)


# ---------------------------------------------------------------- case splits
def pick_condition(roots):
    """Lowest-id atomic condition below an ite, or None."""
    best = None
    seen = set()
    stack = list(roots)
    conds = []
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "ite":
            conds.append(t.args[0])
        stack.extend(t.args)
    seen2 = set()
    while conds:
        c = conds.pop()
        if c.id in seen2:
            continue
        seen2.add(c.id)
        if c.op in ("not", "and"):
            conds.extend(c.args)
        elif c.op in ("bv", "lt", "eq"):
            if best is None or c.id < best.id:
                best = c
    return best


def feasible(pc, timeout=1500):
    """False only if the ite-free path condition is unsatisfiable."""
    pc = [p for p in pc if p is not T.TRUE]
    if any(p is T.FALSE for p in pc):
        return False
    if not pc:
        return True
    if all(_pure_bool_literal(p) for p in pc):
        pos, neg = set(), set()
        for p in pc:
            (neg if p.op == "not" else pos).add((p.args[0] if p.op == "not" else p).id)
        return not (pos & neg)
    e = Enc()
    cs = [e.boolt(p) for p in pc]
    r, _ = run(cs + e.ax, timeout, want_model=False)
    return r != z3.unsat


def _pure_bool_literal(p):
    return p.op == "bv" or (p.op == "not" and p.args[0].op == "bv")


def has_ite(roots):
    return pick_condition(roots) is not None


def cases(goals, pc, limit=4096):
    """Yield (goals, pc) without ite, over all feasible truth assignments."""
    stack = [(list(goals), list(pc))]
    n = 0
    while stack:
        gs, ps = stack.pop()
        if any(p is T.FALSE for p in ps):
            continue
        live = [g for g in gs if g is not T.TRUE]
        if not live:
            continue
        c = pick_condition(live + ps)
        if c is None:
            n += 1
            STATS["cases"] += 1
            if n > limit:
                raise Inconclusive("too many cases")
            yield gs, ps
            continue
        for val in (T.FALSE, T.TRUE):
            lit = c if val is T.TRUE else T.not_(c)
            new = T.substitute(gs + ps, {c: val})
            # keep the literal itself (its arguments are ite-free by id order)
            nps = [p for p in new[len(gs):] if p is not T.TRUE] + [lit]
            if not feasible([p for p in nps if pick_condition([p]) is None]):
                continue
            stack.append((new[:len(gs)], nps))


# ------------------------------------------------------------------- deciding
class Model:
    def __init__(self, values, bools, label):
        self.values = values
        self.bools = bools
        self.label = label


def _val(model, z):
    v = model.eval(z, model_completion=True)
    if z3.is_int_value(v):
        return int(v.as_long())
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(30).as_fraction())
    try:
        return float(v.as_decimal(20).rstrip("?"))
    except Exception:
        return 0.0


def extract(model, enc, label, pins=None):
    values = {}
    for name, (t, integer) in T._vars.items():
        if name in enc.vars:
            values[name] = _val(model, enc.vars[name])
        elif pins and name in pins:
            values[name] = float(pins[name])
    bools = {n: z3.is_true(model.eval(b, model_completion=True)) for n, b in enc.bvars.items()}
    return Model(values, bools, label)


def default_pin(name, rng, t, integer, k):
    lo = t.lo if t.lo > -T.INF else -4
    hi = t.hi if t.hi < T.INF else 4
    if integer:
        return Fraction(rng.randint(int(lo), int(hi)))
    lo2, hi2 = max(lo, -4), min(hi, 4)
    if lo2 >= hi2:
        lo2, hi2 = lo, hi
    span = hi2 - lo2
    step = rng.randint(1, 31)
    v = Fraction(lo2) + Fraction(span) * step / 32
    return Fraction(round(v * 64), 64) if span > 0.5 else v


def pin_constraints(enc, pins, names):
    out = []
    for n in names:
        if n in pins:
            v = enc.var(n)
            out.append(v == q(pins[n]))
    return out


def _transcendental_bounds(enc, pins):
    """Numeric brackets for exp/log atoms at a fully pinned point."""
    import math

    pts = {}
    out = []
    saved = dict(N.S.points)
    N.S.points.clear()
    try:
        for i, (kind, data) in enumerate(N.S.atoms):
            if kind == "v" and data in pins:
                N.S.points[i] = float(pins[data])
        for e, z in list(enc.ex.items()):
            x = N.rf_eval(N.S.exps[e])
            if x is not None and abs(x) < 200:
                v = math.exp(x)
                out += [z > q(Fraction(v * (1 - 1e-7))), z < q(Fraction(v * (1 + 1e-7)))]
        for i, z in list(enc.at.items()):
            if isinstance(i, int) and N.S.atoms[i][0] == "log":
                b = N.rf_eval(N.log_base(i))
                if b is not None and b > 0:
                    v = math.log(b)
                    out += [z > q(Fraction(v - 1e-7)), z < q(Fraction(v + 1e-7))]
    finally:
        N.S.points.clear()
        N.S.points.update(saved)
    return out


def visible_negation(enc, g):
    """Negation of a goal; equalities must differ visibly."""
    if g.op == "eq":
        r = N.rf_sub(N.nf(g.args[0]), N.nf(g.args[1]))
        if N.is_zero(r):
            return None
        n = enc.poly(r.num)
        d = q(1)
        for i, e in r.den:
            for _ in range(e):
                d = d * enc.den(i)
        eps = q(Fraction(1, 200))
        return z3.Or(z3.And(d > 0, z3.Or(n > eps * d, n < -eps * d)),
                     z3.And(d < 0, z3.Or(n < eps * d, n > -eps * d)))
    if g.op == "and":
        parts = [visible_negation(enc, a) for a in g.args]
        parts = [p for p in parts if p is not None]
        return z3.Or(parts) if parts else None
    return z3.Not(enc.boolt(g))


_OPAQUE = {"div", "sqrt", "exp", "log", "qr", "chol", "ite", "max", "abs", "fn"}


def abstract(a, b):
    """a and b with their maximal common non-polynomial subterms as fresh variables."""
    sa = {t.id for t in T.subterms([a])}
    shared = {t.id: t for t in T.subterms([b])
              if t.id in sa and t.op in _OPAQUE and not t.bool}
    if not shared:
        return None
    top, seen, stack = {}, set(), [a, b]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.id in shared:
            top[t] = T.var(f"!abs{t.id}", t.lo, t.hi)
        else:
            stack.extend(t.args)
    out = T.substitute([a, b], top)
    for v in top.values():
        T._vars.pop(v.val, None)
    return out


def goal_closed(g):
    """True if the normal form alone shows the goal."""
    if g is T.TRUE:
        return True
    if g.op == "eq" and not g.args[0].bool:
        ab = abstract(*g.args)
        if ab is not None:
            try:
                if N.is_zero(N.rf_sub(N.nf(ab[0]), N.nf(ab[1]))):
                    STATS["abstracted"] = STATS.get("abstracted", 0) + 1
                    return True
            except (N.TooBig, N.Unsupported, ZeroDivisionError):
                pass
    if g.op == "eq":
        r = N.rf_sub(N.nf(g.args[0]), N.nf(g.args[1]))
        return N.is_zero(r)
    if g.op == "and":
        return all(goal_closed(a) for a in g.args)
    return False


def closed_by_kinks(g, ps, limit=64, seconds=20):
    """True if the goal holds in each feasible case of its max and abs terms."""
    if not any(t.op in ("max", "abs") for t in T.subterms([g])):
        return False
    stack, n = [(g, list(ps), 0)], 0
    N.S.deadline = time.monotonic() + seconds
    try:
        while stack:
            h, hs, depth = stack.pop()
            kink = next((t for t in T.subterms([h]) if t.op in ("max", "abs")), None)
            if kink is None or depth:
                if goal_closed(h):
                    continue
                if kink is None and feasible(hs):
                    return False
                if kink is None:
                    continue
            n += 1
            if n > limit or depth > 12:
                return False
            a = kink.args
            c = T.lt(a[0], a[1]) if kink.op == "max" else T.lt(a[0], T.ZERO)
            outs = (a[1], a[0]) if kink.op == "max" else (T.neg(a[0]), a[0])
            for lit, out in ((c, outs[0]), (T.not_(c), outs[1])):
                if lit is T.FALSE or (depth > 1 and not feasible(hs + [lit])):
                    continue
                new = T.substitute([h], {kink: out})[0]
                stack.append((new, hs + [lit], depth + 1))
    except (N.TooBig, N.Unsupported, ZeroDivisionError):
        return False
    finally:
        N.S.deadline = None
    STATS["kinks"] = STATS.get("kinks", 0) + 1
    return True


def closed_by_shape(g, seconds=5):
    """True if an equality holds with conditional terms as opaque atoms, None: not tried."""
    if g.op != "eq" or g.args[0].bool or pick_condition([g]) is None:
        return None
    N.S.deadline = time.monotonic() + seconds
    try:
        if N.is_zero(N.rf_sub(N.nf(g.args[0]), N.nf(g.args[1]))):
            STATS["nf_closed"] += 1
            return True
    except (N.TooBig, N.Unsupported, ZeroDivisionError):
        pass
    finally:
        N.S.deadline = None
    return False


def decide(goals, pc, rng, on_model, timeout_ms=20000, max_replays=6):
    """Decide labelled bool goals under pc.

    goals: list of (label, bool term). on_model(Model) -> bool says whether the model is a
    confirmed counterexample. Returns list of confirmed labels; raises Inconclusive.
    """
    confirmed = []
    given, failed = goals, 0
    goals = []
    for l, g in given:
        if failed < 6:
            done = closed_by_shape(g)
            failed += done is False
            g = T.TRUE if done else g
        goals.append((l, g))
    labels = [l for l, _ in goals]
    failed_kinks = 0
    for gs, ps in cases([g for _, g in goals], pc):
        e = Enc()
        hyp = [e.boolt(p) for p in ps]
        openg = []
        for l, g in zip(labels, gs):
            if g is T.TRUE:
                continue
            if goal_closed(g):
                STATS["nf_closed"] += 1
                continue
            if failed_kinks < 4:
                if closed_by_kinks(g, ps):
                    continue
                failed_kinks += 1
            openg.append((l, g))
        if not openg:
            # the remaining obligation is 0 == 0; still let z3 see the (trivial) query
            run(hyp + e.ax + [z3.BoolVal(False)], 1000, want_model=False)
            continue
        bad = _decide_leaf(openg, ps, rng, on_model, timeout_ms, max_replays)
        confirmed.extend(bad)
        if confirmed:
            return confirmed
    return confirmed


def _relevant_vars(terms):
    return sorted({t.val for t in T.subterms(terms) if t.op == "v"})


def _decide_leaf(openg, ps, rng, on_model, timeout_ms, max_replays):
    names = _relevant_vars([g for _, g in openg] + ps)
    tried = 0
    slice_unsat = 0
    spurious = []
    # 1. look for a counterexample on pinned points first (cheap)
    for k in range(3):
        pins = {n: default_pin(n, rng, *T._vars[n], k) for n in T._vars}
        for frac in (1.0, 0.5):
            e = Enc()
            hyp = [e.boolt(p) for p in ps]
            neg = [visible_negation(e, g) for _, g in openg]
            neg = [n for n in neg if n is not None]
            if not neg:
                continue
            use = names if frac == 1.0 else [n for n in names if rng.random() < frac]
            if frac < 1.0 and not ps:
                continue
            pc_ = pin_constraints(e, pins, use)
            tb = _transcendental_bounds(e, pins) if frac == 1.0 else []
            r, m = run(hyp + e.ax + [z3.Or(neg)] + pc_ + tb, 4000)
            if r == z3.unsat and frac == 1.0:
                slice_unsat += 1
            if r == z3.sat:
                mod = extract(m, e, openg[0][0], pins)
                for n in names:
                    mod.values.setdefault(n, float(pins[n]))
                tried += 1
                if on_model(mod):
                    return [openg[0][0]]
                spurious.append(mod)
            if tried >= max_replays:
                raise Inconclusive(
                    f"counterexample for {[l for l, _ in openg][:3]} does not reproduce")
    # 2. the full query
    e = Enc()
    hyp = [e.boolt(p) for p in ps]
    neg = [z3.Not(e.boolt(g)) for _, g in openg]
    r, m = run(hyp + e.ax + [z3.Or(neg)], timeout_ms)
    if r == z3.unsat:
        return []
    if r == z3.sat:
        mod = extract(m, e, openg[0][0])
        if on_model(mod):
            return [openg[0][0]]
        raise Inconclusive(
            f"model for {[l for l, _ in openg][:3]} does not reproduce: {mod.values}")
    # 3. unknown: goal by goal on slices
    bad = []
    for l, g in openg:
        e = Enc()
        hyp = [e.boolt(p) for p in ps]
        r, m = run(hyp + e.ax + [z3.Not(e.boolt(g))], timeout_ms // 2)
        if r == z3.unsat:
            continue
        if r == z3.sat:
            if on_model(extract(m, e, l)):
                return [l]
            raise Inconclusive(f"model for {l} does not reproduce")
        ok = 0
        for k in range(4):
            pins = {n: default_pin(n, rng, *T._vars[n], k) for n in T._vars}
            for keep in range(0, min(3, len(names))):
                # leave `keep` variables free
                free = rng.sample(names, keep) if keep else []
                e = Enc()
                hyp = [e.boolt(p) for p in ps]
                ng = z3.Not(e.boolt(g))
                pcs = pin_constraints(e, pins, [n for n in names if n not in free])
                tb = _transcendental_bounds(e, pins) if not free else []
                r, m = run(hyp + e.ax + [ng] + pcs + tb, 5000)
                if r == z3.unsat:
                    ok += 1
                elif r == z3.sat:
                    mod = extract(m, e, l, pins)
                    if on_model(mod):
                        return [l]
        if ok:
            STATS["slices"] += 1
        else:
            raise Inconclusive(f"solver unknown for {l}")
    return bad


# ------------------------------------------------------------ raw (audit) encoding
class Raw:
    """Direct z3 encoding of terms without the normaliser; QR by its contract."""

    def __init__(self):
        self.memo = {}
        self.ax = []
        self.mats = {}

    def enc(self, t):
        for u in T.subterms([t]):
            if u.id not in self.memo:
                self.memo[u.id] = self._one(u, [self.memo[a.id] for a in u.args])
        return self.memo[t.id]

    def _one(self, t, a):
        op = t.op
        if op == "c":
            return q(t.val)
        if op == "v":
            v = z3.Real(t.val)
            if t.lo > -T.INF:
                self.ax.append(v >= q(Fraction(t.lo)))
            if t.hi < T.INF:
                self.ax.append(v <= q(Fraction(t.hi)))
            return v
        if op == "bv":
            return z3.Bool(t.val)
        if op == "T":
            return z3.BoolVal(True)
        if op == "F":
            return z3.BoolVal(False)
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            self.ax.append(a[1] != 0)
            return a[0] / a[1]
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "lt":
            return a[0] < a[1]
        if op == "eq":
            return a[0] == a[1]
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(a)
        if op == "abs":
            return z3.If(a[0] >= 0, a[0], -a[0])
        if op == "max":
            return z3.If(a[0] >= a[1], a[0], a[1])
        if op == "sqrt":
            r = z3.Real(f"sqrt_{t.id}")
            self.ax += [r >= 0, r * r == a[0]]
            return r
        if op == "qr":
            nr, nc, i, j = t.val
            key = tuple(x.id for x in t.args)
            if key not in self.mats:
                R = [[z3.Real(f"r_{len(self.mats)}_{p}_{s}") if s >= p else q(0)
                      for s in range(nc)] for p in range(nc)]
                for p in range(nc):
                    for s in range(p, nc):
                        lhs = z3.Sum([R[k][p] * R[k][s] for k in range(nc)])
                        rhs = z3.Sum([a[k * nc + p] * a[k * nc + s] for k in range(nr)])
                        self.ax.append(lhs == rhs)
                self.mats[key] = R
            return self.mats[key][i][j]
        raise N.Unsupported(op)


def audit(goals, pc, timeout_ms=1500):
    """Second opinion: z3 on the raw encoding of goals; 'sat' would expose the normaliser."""
    for g in goals:
        sub = T.subterms([g] + list(pc))
        if len(sub) > 400:
            continue
        try:
            r_ = Raw()
            cs = [r_.enc(p) for p in pc] + [z3.Not(r_.enc(g))]
        except N.Unsupported:
            continue
        r, _ = run(cs + r_.ax, timeout_ms, want_model=False)
        STATS["audits"] += 1
        if r == z3.unsat:
            STATS["audit_unsat"] += 1
        elif r == z3.sat:
            raise Inconclusive("audit: raw encoding disagrees with the normal form")
