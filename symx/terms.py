"""Hash-consed terms over the reals and booleans, with exact constants.

Real ops: c, v, add, mul, div, pow, sqrt, exp, log, abs, max, ite, qr, fn
Bool ops: T, F, bv, lt, le, eq, not, and, or
"""
import math
from fractions import Fraction

INF = math.inf


class T:
    __slots__ = ("op", "args", "val", "id", "lo", "hi", "bool", "fe")

    def __repr__(self):
        return show(self, 3)


_table = {}
_list = []


def reset():
    _table.clear()
    _list.clear()
    _vars.clear()


def _mk(op, args=(), val=None, boolean=False, lo=-INF, hi=INF):
    key = (op, tuple(a.id for a in args), val)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.val, t.bool = op, tuple(args), val, boolean
        t.id = len(_list)
        t.lo, t.hi = lo, hi
        t.fe = None
        _list.append(t)
        _table[key] = t
    return t


# ------------------------------------------------------------------ constants
_PI = Fraction(0)  # placeholder, pi is an atom


def const(x):
    if isinstance(x, T):
        return x
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, bool):
        f = Fraction(int(x))
    elif isinstance(x, int):
        f = Fraction(x)
    else:
        return const_from_float(float(x))
    v = float(f) if abs(f) < Fraction(10) ** 300 else (INF if f > 0 else -INF)
    lo = math.nextafter(v, -INF) if math.isfinite(v) else (v if v < 0 else 1e300)
    hi = math.nextafter(v, INF) if math.isfinite(v) else (v if v > 0 else -1e300)
    if f.denominator == 1 and abs(f) < 2**53:
        lo = hi = float(f)
    return _mk("c", (), f, lo=lo, hi=hi)


def pi():
    return _mk("pi", (), None, lo=3.1415, hi=3.1416)


def inf(sign):
    return _mk("inf", (), sign, lo=INF if sign > 0 else -INF, hi=INF if sign > 0 else -INF)


_snap_cache = {}


def const_from_float(x):
    """Exact value denoted by a float literal.

    Dyadic numbers with a small denominator are kept; other floats are replaced by the
    nearby simple number (rational, root of a rational, multiple of pi, log of a simple
    number) they are the correctly rounded representation of, up to 4e-16 relative.
    Rounding error is outside the claims of these checks.
    """
    x = float(x)
    if x in _snap_cache:
        return _snap_cache[x]()
    if math.isinf(x):
        return inf(1 if x > 0 else -1)
    if math.isnan(x):
        raise ValueError("nan constant must be handled by the caller")
    fr = Fraction(x)
    res = None

    def close(a, b):
        return abs(a - b) <= 4.5e-16 * abs(b)

    if fr.denominator <= 2**20 or abs(x) > 1e15:
        res = lambda: const(fr)
    else:
        for lim in (1000, 10**5, 10**7):
            cand = fr.limit_denominator(lim)
            if cand != 0 and close(float(cand), x):
                res = lambda: const(cand)
                break
        if res is None and abs(x) < 1e-6:
            # decimal literal such as 1e-8
            cand = Fraction(repr(x))
            if cand.denominator <= 10**30 and len(str(cand.numerator)) <= 6:
                res = lambda: const(cand)
        if res is None:
            for k, mk in (
                (math.pi, lambda c: mul(const(c), pi())),
                (1 / math.pi, lambda c: div(const(c), pi())),
                (math.sqrt(2 * math.pi), lambda c: mul(const(c), sqrt(mul(const(2), pi())))),
                (1 / math.sqrt(2 * math.pi), lambda c: div(const(c), sqrt(mul(const(2), pi())))),
                (math.log(2 * math.pi), lambda c: mul(const(c), log(mul(const(2), pi())))),
            ):
                cand = Fraction(x / k).limit_denominator(1000)
                if cand != 0 and close(float(cand) * k, x):
                    res = (lambda mk, cand: lambda: mk(cand))(mk, cand)
                    break
        if res is None:
            cand = Fraction(x * x).limit_denominator(10**4)
            if cand != 0 and abs(math.sqrt(float(cand)) - abs(x)) <= 4.5e-16 * abs(x):
                if x > 0:
                    res = lambda: sqrt(const(cand))
                else:
                    res = lambda: neg(sqrt(const(cand)))
        if res is None:
            for num in range(2, 40):
                cand = Fraction(x / math.log(num)).limit_denominator(12)
                if cand != 0 and close(float(cand) * math.log(num), x):
                    res = (lambda num, cand: lambda: mul(const(cand), log(const(num))))(num, cand)
                    break
        if res is None:
            cand = Fraction(repr(x))
            if len(str(abs(cand.numerator))) <= 12:
                res = lambda: const(cand)
        if res is None:
            res = lambda: const(fr)
    _snap_cache[x] = res
    return res()


# ------------------------------------------------------------------ variables
_vars = {}


def var(name, lo=-INF, hi=INF, integer=False):
    t = _mk("v", (), name, lo=lo, hi=hi)
    _vars[name] = (t, integer)
    return t


def is_int_var(name):
    return _vars[name][1]


def bvar(name):
    return _mk("bv", (), name, boolean=True)


TRUE = _mk("T", boolean=True)
FALSE = _mk("F", boolean=True)
ZERO = const(0)
ONE = const(1)
_base = [TRUE, FALSE, ZERO, ONE]


def reset():  # noqa: F811
    """Forget everything except the base constants (ids stay valid)."""
    keep = {("T", (), None): TRUE, ("F", (), None): FALSE,
            ("c", (), Fraction(0)): ZERO, ("c", (), Fraction(1)): ONE}
    _positive.clear()
    _table.clear()
    _table.update(keep)
    del _list[len(_base):]
    _vars.clear()


def is_const(t):
    return t.op == "c"


# ------------------------------------------------------------------ real ops
def add(a, b):
    if a.op == "c":
        if b.op == "c":
            return const(a.val + b.val)
        if a.val == 0:
            return b
    elif b.op == "c" and b.val == 0:
        return a
    if a.op == "inf":
        if b.op == "inf" and a.val != b.val:
            raise NotImplementedError("inf - inf")
        return a
    if b.op == "inf":
        return b
    if a.id > b.id:
        a, b = b, a
    lo, hi = _dn(a.lo + b.lo), _up(a.hi + b.hi)
    if a.lo >= 0 and b.lo >= 0:
        lo = max(lo, 0.0)
    if a.hi <= 0 and b.hi <= 0:
        hi = min(hi, 0.0)
    return _mk("add", (a, b), lo=lo, hi=hi)


def _dn(x):
    return -INF if x != x else (math.nextafter(x, -INF) if math.isfinite(x) else x)


def _up(x):
    return INF if x != x else (math.nextafter(x, INF) if math.isfinite(x) else x)


def _imul(al, ah, bl, bh):
    ps = []
    for p in (al, ah):
        for q in (bl, bh):
            r = 0.0 if (p == 0 or q == 0) else p * q
            ps.append(r)
    lo, hi = _dn(min(ps)), _up(max(ps))
    if (al >= 0 and bl >= 0) or (ah <= 0 and bh <= 0):
        lo = max(lo, 0.0)
    if (al >= 0 and bh <= 0) or (ah <= 0 and bl >= 0):
        hi = min(hi, 0.0)
    return lo, hi


def mul(a, b):
    if a.op == "c":
        if b.op == "c":
            return const(a.val * b.val)
        if a.val == 0:
            return ZERO
        if a.val == 1:
            return b
    if b.op == "c":
        if b.val == 0:
            return ZERO
        if b.val == 1:
            return a
    if a.op == "inf" or b.op == "inf":
        s, o = (a, b) if a.op == "inf" else (b, a)
        if o.op == "inf":
            return inf(a.val * b.val)
        if o.lo > 0:
            return s
        if o.hi < 0:
            return inf(-s.val)
        raise NotImplementedError("inf * unknown sign")
    if a.id > b.id:
        a, b = b, a
    if a is b:
        m = max(abs(a.lo), abs(a.hi))
        lo = 0.0 if a.lo <= 0 <= a.hi else _dn(min(a.lo * a.lo, a.hi * a.hi))
        hi = _up(m * m)
    else:
        lo, hi = _imul(a.lo, a.hi, b.lo, b.hi)
    return _mk("mul", (a, b), lo=lo, hi=hi)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def div(a, b):
    if b.op == "c":
        if b.val == 0:
            raise ZeroDivisionError("division by constant zero")
        if a.op == "inf":
            return a if b.val > 0 else inf(-a.val)
        return mul(a, const(1 / b.val))
    if b.op == "inf":
        return ZERO
    if a.op == "c" and a.val == 0:
        return ZERO
    lo, hi = -INF, INF
    if b.lo > 0 or b.hi < 0:
        lo, hi = _imul(a.lo, a.hi, *sorted((1 / b.lo, 1 / b.hi)))
    elif b.lo >= 0 and a.lo >= 0:
        lo = 0.0
    return _mk("div", (a, b), lo=lo, hi=hi)


def powi(a, n):
    if n == 0:
        return ONE
    if n == 1:
        return a
    if n < 0:
        return div(ONE, powi(a, -n))
    if a.op == "c":
        return const(a.val**n)
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def sqrt(a):
    if a.op == "c":
        if a.val < 0:
            raise ValueError("sqrt of negative constant")
        n, d = a.val.numerator, a.val.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fraction(rn, rd))
    lo = _dn(math.sqrt(max(a.lo, 0.0)))
    return _mk("sqrt", (a,), lo=max(lo, 0.0), hi=_up(math.sqrt(max(a.hi, 0.0))))


def _sexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def exp(a):
    if a.op == "c" and a.val == 0:
        return ONE
    if a.op == "inf":
        return a if a.val > 0 else ZERO
    return _mk("exp", (a,), lo=max(0.0, _dn(_sexp(a.lo))), hi=_up(_sexp(a.hi)))


def log(a):
    if a.op == "c" and a.val == 1:
        return ZERO
    if a.op == "c" and a.val == 0:
        return inf(-1)
    lo = _dn(math.log(a.lo)) if a.lo > 0 else -INF
    hi = _up(math.log(a.hi)) if a.hi > 0 else INF
    return _mk("log", (a,), lo=lo, hi=hi)


def abs_(a):
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return neg(a)
    if a.op == "c":
        return const(abs(a.val))
    return _mk("abs", (a,), lo=0.0, hi=max(abs(a.lo), abs(a.hi)))


def max_(a, b):
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return a if a.val >= b.val else b
    if a.lo >= b.hi:
        return a
    if b.lo >= a.hi:
        return b
    if a.id > b.id:
        a, b = b, a
    return _mk("max", (a, b), lo=max(a.lo, b.lo), hi=max(a.hi, b.hi))


def min_(a, b):
    return neg(max_(neg(a), neg(b)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b), lo=min(a.lo, b.lo), hi=max(a.hi, b.hi))


class Mat:
    """Matrix given to a QR decomposition (interned by its entries)."""

    _tab = {}

    def __new__(cls, rows):
        key = tuple(tuple(x.id for x in r) for r in rows)
        m = cls._tab.get(key)
        if m is None or m.rows[0][0] is not rows[0][0]:
            m = object.__new__(cls)
            m.rows = tuple(tuple(r) for r in rows)
            cls._tab[key] = m
        return m


def qr_entry(mat, i, j):
    """Entry (i, j), i <= j, of an upper triangular R with R'R = M'M.

    The sign of each row is arbitrary (an uninterpreted sign atom per row).
    """
    flat = tuple(x for r in mat.rows for x in r)
    return _mk("qr", flat, (len(mat.rows), len(mat.rows[0]), i, j))


def chol_entry(rows, i, j):
    """Entry (i, j), i <= j of the upper triangular U with U'U = G, positive diagonal."""
    flat = tuple(x for r in rows for x in r)
    return _mk("chol", flat, (len(rows), i, j), lo=0.0 if i == j else -INF)


def fn(name, *args):
    """Uninterpreted function application."""
    return _mk("fn", args, name)


_positive = {}


def positive(t):
    """True if t is surely > 0 (None bounds cannot say: exp has infimum 0)."""
    if t.lo > 0:
        return True
    if t.lo < 0:
        return False
    r = _positive.get(t)
    if r is None:
        a = t.args
        if t.op == "exp":
            r = True
        elif t.op == "add":
            r = all(x.lo >= 0 for x in a) and any(positive(x) for x in a)
        elif t.op in ("mul", "div"):
            r = all(positive(x) for x in a)
        elif t.op == "sqrt":
            r = positive(a[0])
        elif t.op == "max":
            r = any(positive(x) for x in a)
        elif t.op == "ite":
            r = positive(a[1]) and positive(a[2])
        else:
            r = False
        _positive[t] = r
    return r


# ------------------------------------------------------------------ bool ops
def lt(a, b):
    if a is b:
        return FALSE
    if a.hi <= 0 and b.lo >= 0 and positive(b):
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.val < b.val else FALSE
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi:
        return FALSE
    if a.op == "inf" or b.op == "inf":
        if (a.op == "inf" and a.val > 0) or (b.op == "inf" and b.val < 0):
            return FALSE
        return TRUE
    return _mk("lt", (a, b), boolean=True)


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    if a.bool:
        if a is b:
            return TRUE
        if a in (TRUE, FALSE):
            return b if a is TRUE else not_(b)
        if b in (TRUE, FALSE):
            return a if b is TRUE else not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.val == b.val else FALSE
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    if (a.hi <= 0 and positive(b)) or (b.hi <= 0 and positive(a)):
        return FALSE
    if a.op == "inf" or b.op == "inf":
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), boolean=True)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), boolean=True)


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x.id in seen:
            continue
        if x.op == "and":
            for y in x.args:
                if y.id not in seen:
                    seen.add(y.id)
                    out.append(y)
            continue
        seen.add(x.id)
        out.append(x)
    for x in out:
        if x.op == "not" and x.args[0].id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk("and", tuple(out), boolean=True)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


# ------------------------------------------------------------------ utilities
def show(t, depth=4):
    if t.op == "c":
        return str(t.val)
    if t.op in ("v", "bv"):
        return str(t.val)
    if not t.args:
        return t.op + ("" if t.val is None else str(t.val))
    if depth <= 0:
        return "..."
    return f"{t.op}({', '.join(show(a, depth - 1) for a in t.args[:6])})"


def subterms(roots):
    """All subterms in topological (id) order."""
    seen = set()
    stack = list(roots)
    out = []
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        stack.extend(t.args)
    out.sort(key=lambda t: t.id)
    return out


def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "sqrt":
        return sqrt(args[0])
    if op == "exp":
        return exp(args[0])
    if op == "log":
        return log(args[0])
    if op == "abs":
        return abs_(args[0])
    if op == "max":
        return max_(*args)
    if op == "ite":
        return ite(*args)
    if op == "qr":
        return _mk("qr", tuple(args), t.val)
    if op == "chol":
        return _mk("chol", tuple(args), t.val)
    if op == "fn":
        return _mk("fn", tuple(args), t.val)
    if op == "lt":
        return lt(*args)
    if op == "eq":
        return eq(*args)
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    raise AssertionError(op)


def substitute(roots, mapping):
    """Replace terms (dict term -> term) bottom up; returns list of new roots."""
    memo = dict((k.id, v) for k, v in mapping.items())

    def visit(root):
        stack = [root]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            if not t.args:
                memo[t.id] = t
                stack.pop()
                continue
            if t.op == "ite":
                c = t.args[0]
                if c.id not in memo:
                    stack.append(c)
                    continue
                cv = memo[c.id]
                pick = t.args[1] if cv is TRUE else t.args[2] if cv is FALSE else None
                if pick is not None:
                    if pick.id not in memo:
                        stack.append(pick)
                        continue
                    memo[t.id] = memo[pick.id]
                    stack.pop()
                    continue
            todo = [a for a in t.args if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            new = [memo[a.id] for a in t.args]
            if all(n is o for n, o in zip(new, t.args)):
                memo[t.id] = t
            else:
                try:
                    memo[t.id] = rebuild(t, new)
                except (ZeroDivisionError, ValueError):  # undefined in this case: unspecified
                    memo[t.id] = _mk(t.op, tuple(new), t.val)
            stack.pop()
        return memo[root.id]

    return [visit(r) for r in roots]


def evaluate(roots, env):
    """Float evaluation, env maps variable names to floats/bools. Recursion free."""
    memo = {}
    for t in subterms(roots):
        a = [memo[x.id] for x in t.args] if t.op not in ("ite",) else None
        try:
            memo[t.id] = _eval1(t, a, memo, env)
        except (ZeroDivisionError, ValueError, OverflowError):
            memo[t.id] = math.nan
    return [memo[r.id] for r in roots]


def _eval1(t, a, memo, env):
    op = t.op
    if op == "c":
        try:
            return float(t.val)
        except OverflowError:
            return INF if t.val > 0 else -INF
    if op in ("v", "bv"):
        return env[t.val]
    if op == "pi":
        return math.pi
    if op == "inf":
        return INF * t.val
    if op == "add":
        return a[0] + a[1]
    if op == "mul":
        return a[0] * a[1]
    if op == "div":
        return a[0] / a[1]
    if op == "sqrt":
        return math.sqrt(a[0])
    if op == "exp":
        return math.exp(a[0])
    if op == "log":
        return math.log(a[0])
    if op == "abs":
        return abs(a[0])
    if op == "max":
        return max(a)
    if op == "ite":
        return memo[t.args[1].id] if memo[t.args[0].id] else memo[t.args[2].id]
    if op == "lt":
        return a[0] < a[1]
    if op == "eq":
        return a[0] == a[1]
    if op == "not":
        return not a[0]
    if op == "and":
        return all(a)
    if op == "T":
        return True
    if op == "F":
        return False
    if op == "qr":
        import numpy as np

        nr, nc, i, j = t.val
        r = np.linalg.qr(np.array(a, dtype=float).reshape(nr, nc))[1]
        return float(r[i, j])
    if op == "chol":
        import numpy as np

        n, i, j = t.val
        return float(np.linalg.cholesky(np.array(a, dtype=float).reshape(n, n)).T[i, j])
    if op == "fn":
        return env["fn:" + t.val](*a)
    raise AssertionError(op)


def diff(roots, x):
    """Derivatives of terms with respect to the variable x (forward mode)."""
    two, half = const(2), const(Fraction(1, 2))
    d, qrs = {}, {}
    for t in subterms(roots):
        op, a = t.op, t.args
        if t is x:
            d[t.id] = ONE
            continue
        if op in ("lt", "eq", "not", "and", "bv", "T", "F") or not a:
            d[t.id] = ZERO
            continue
        da = [d[y.id] for y in a]
        if all(y is ZERO for y in da):
            d[t.id] = ZERO
        elif op == "add":
            d[t.id] = add(*da)
        elif op == "mul":
            d[t.id] = add(mul(da[0], a[1]), mul(a[0], da[1]))
        elif op == "div":
            d[t.id] = div(sub(da[0], mul(t, da[1])), a[1])
        elif op == "sqrt":
            d[t.id] = div(da[0], mul(two, t))
        elif op == "exp":
            d[t.id] = mul(t, da[0])
        elif op == "log":
            d[t.id] = div(da[0], a[0])
        elif op == "abs":
            d[t.id] = ite(lt(a[0], ZERO), neg(da[0]), da[0])
        elif op == "max":
            d[t.id] = ite(lt(a[0], a[1]), da[1], da[0])
        elif op == "ite":
            d[t.id] = ite(a[0], da[1], da[2])
        elif op == "qr":
            nr, nc, i, j = t.val
            key = tuple(y.id for y in a)
            if key not in qrs:
                qrs[key] = _dqr(a, da, nr, nc, half)
            d[t.id] = qrs[key][(i, j)]
        elif op == "chol":
            n, i, j = t.val
            key = ("chol",) + tuple(y.id for y in a)
            if key not in qrs:
                qrs[key] = _dchol(a, da, n, half)
            d[t.id] = qrs[key][(i, j)]
        else:
            raise NotImplementedError(op)
    return [d[r.id] for r in roots]


def _dqr(a, da, nr, nc, half):
    """dR from R'R = M'M, column by column."""
    m = Mat([a[r * nc:(r + 1) * nc] for r in range(nr)])

    def dg(i, j):
        s = ZERO
        for r in range(nr):
            s = add(s, add(mul(da[r * nc + i], a[r * nc + j]), mul(a[r * nc + i], da[r * nc + j])))
        return s

    return _dupper(dg, lambda i, j: qr_entry(m, i, j), min(nr, nc), nc, half)


def _dchol(a, da, n, half):
    """dU from U'U = G, of which the upper triangle counts."""
    g = [a[r * n:(r + 1) * n] for r in range(n)]
    return _dupper(lambda i, j: da[i * n + j], lambda i, j: chol_entry(g, i, j), n, n, half)


def _dupper(dg, entry, nr, nc, half):
    out = {}
    for i in range(nr):
        for j in range(i, nc):
            s = dg(i, j)
            for k in range(i):
                rki, rkj = entry(k, i), entry(k, j)
                s = sub(s, add(mul(out[(k, i)], rkj), mul(rki, out[(k, j)])))
            rii = entry(i, i)
            if i == j:
                out[(i, i)] = mul(half, div(s, rii))
            else:
                out[(i, j)] = div(sub(s, mul(out[(i, i)], entry(i, j))), rii)
    return out
