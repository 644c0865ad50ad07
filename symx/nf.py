"""Normal forms: rational functions over atoms (variables, radicals, logs, ...).

A polynomial is a dict monomial -> int/Fraction. A monomial is (pairs, eid) where pairs
is a sorted tuple of (atom, exponent) and eid identifies an interned exponent (a
rational function q standing for the factor exp(q)); eid 0 means exp(0).

A rational function (RF) is a numerator polynomial over a product of registered
(primitive, multi-term) polynomials.

The forms are used to discharge and to shrink goals before they are handed to z3: a goal
`a == b` becomes `num(a - b) == 0`, with atoms defined by axioms (s*s == p and so on).
"""
import math
import time
from fractions import Fraction
from math import gcd

from . import terms as T

ONE_MONO = ((), 0)


class TooBig(Exception):
    pass


class Unsupported(Exception):
    pass


MAX_TERMS = 60000


class State:
    def __init__(self):
        self.atoms = []  # list of (kind, data)
        self.atom_ids = {}
        self.special = set()  # atoms with reduction rules
        self.polys = []  # registered canonical polys
        self.poly_ids = {}
        self.exps = [RF_ZERO]
        self.exp_ids = {RF_ZERO.key(): 0}
        self.exp_add = {}
        self.exp_values = {}
        self.memo = {}
        self.ldl = {}
        self.points = {}
        self.deadline = None
        self.posatoms = set()


def norm_coef(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class RF:
    __slots__ = ("num", "den", "_key")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.num.items()), self.den)
        return self._key

    def is_zero(self):
        return not self.num

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and ONE_MONO in self.num))

    def const_value(self):
        return Fraction(self.num.get(ONE_MONO, 0))


RF_ZERO = RF({})
RF_ONE = RF({ONE_MONO: 1})
S = State()


def reset():
    global S
    S = State()


# --------------------------------------------------------------------- atoms
def atom(kind, data, special=False, pos=False):
    key = (kind, data)
    i = S.atom_ids.get(key)
    if i is None:
        i = len(S.atoms)
        S.atoms.append(key)
        S.atom_ids[key] = i
        if special:
            S.special.add(i)
        if pos:
            S.posatoms.add(i)
    return i


def rf_atom(i, e=1):
    return RF({(((i, e),), 0): 1})


def rf_const(c):
    c = norm_coef(Fraction(c))
    return RF({ONE_MONO: c}) if c else RF_ZERO


# ---------------------------------------------------------------- exponents
def exp_intern(q):
    """Intern the exponent q (an RF)."""
    if not q.num:
        return 0
    k = q.key()
    i = S.exp_ids.get(k)
    if i is not None:
        return i
    # semantic comparison with known exponents
    fp = rf_eval(q)
    for j in range(1, len(S.exps)):
        fj = rf_eval(S.exps[j])
        if fj is not None and fp is not None and abs(fp - fj) <= 1e-7 * (1 + abs(fp)):
            if rf_sub(q, S.exps[j]).is_zero():
                S.exp_ids[k] = j
                return j
    i = len(S.exps)
    S.exps.append(q)
    S.exp_ids[k] = i
    return i


def exp_plus(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    key = (a, b) if a <= b else (b, a)
    r = S.exp_add.get(key)
    if r is None:
        r = exp_intern(rf_add(S.exps[a], S.exps[b]))
        S.exp_add[key] = r
    return r


def exp_times(a, k):
    if a == 0 or k == 0:
        return 0
    if k == 1:
        return a
    return exp_intern(rf_scale(S.exps[a], k))


# -------------------------------------------------------------- polynomials
def _merge(p, q):
    if not p:
        return p if not q else q
    if not q:
        return p
    out = []
    i = j = 0
    while i < len(p) and j < len(q):
        a, b = p[i], q[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(p[i:])
    out.extend(q[j:])
    return tuple(out)


def p_add(p, q, c=1):
    if len(p) < len(q) and c == 1:
        p, q = q, p
    out = dict(p)
    for m, v in q.items():
        n = out.get(m, 0) + c * v
        if n:
            out[m] = norm_coef(n)
        else:
            out.pop(m, None)
    return out


def p_scale(p, c):
    if c == 1:
        return p
    return {m: norm_coef(v * c) for m, v in p.items()} if c else {}


def p_mul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > MAX_TERMS * 60:
        raise TooBig(f"{len(p)}x{len(q)}")
    if S.deadline is not None and time.monotonic() > S.deadline:
        raise TooBig("deadline")
    out = {}
    special = S.special
    todo = []
    for (pa, ea), va in p.items():
        for (pb, eb), vb in q.items():
            m = _merge(pa, pb)
            e = exp_plus(ea, eb)
            needs = False
            if special:
                for a, x in m:
                    if a in special and (x >= 2 or x < 0):
                        needs = True
                        break
            v = va * vb
            if needs:
                todo.append(((m, e), v))
            else:
                k = (m, e)
                n = out.get(k, 0) + v
                if n:
                    out[k] = n
                else:
                    out.pop(k, None)
    if todo:
        acc = {}
        for k, v in todo:
            n = acc.get(k, 0) + v
            acc[k] = n
        for (m, e), v in acc.items():
            if not v:
                continue
            red = _reduce_mono(m, e)
            for k, w in red.items():
                n = out.get(k, 0) + v * w
                if n:
                    out[k] = norm_coef(n)
                else:
                    out.pop(k, None)
    if len(out) > MAX_TERMS:
        raise TooBig(str(len(out)))
    return {k: norm_coef(v) for k, v in out.items()} if any(
        isinstance(v, Fraction) for v in out.values()) else out


def _reduce_mono(m, e):
    """Apply s*s -> p and sgn*sgn -> 1 in a monomial; only non-negative powers."""
    keep = []
    factor = {ONE_MONO: 1}
    for a, x in m:
        if a in S.special:
            kind, data = S.atoms[a]
            if kind == "sgn":
                if x % 2:
                    keep.append((a, 1))
                continue
            # sqrt
            if x < 0:
                raise Unsupported("negative power of radical in numerator")
            if x % 2:
                keep.append((a, 1))
            for _ in range(x // 2):
                factor = p_mul(factor, S.polys[data] if isinstance(data, int) else dict(data))
        else:
            keep.append((a, x))
    base = {(tuple(keep), e): 1}
    if factor == {ONE_MONO: 1}:
        return base
    return p_mul(base, factor)


def p_pow(p, n):
    r = {ONE_MONO: 1}
    b = p
    while n:
        if n & 1:
            r = p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def p_content(p):
    """Split p = c * mono * q with q primitive (integer, no monomial content).

    Returns (c, mono, q). The sign of q's leading coefficient is positive.
    """
    den = 1
    for v in p.values():
        if isinstance(v, Fraction):
            den = den * v.denominator // gcd(den, v.denominator)
    g = 0
    for v in p.values():
        g = gcd(g, int(v * den))
    # monomial content
    common = None
    for (pairs, _e) in p:
        d = dict(pairs)
        if common is None:
            common = d
        else:
            new = {}
            for a in set(common) | set(d):
                x = min(common.get(a, 0), d.get(a, 0))
                if x:
                    new[a] = x
            common = new
    common = common or {}
    lead = max(p, key=_mono_order)
    if lead[1] or len(p) > 1:
        # among the exponentials of the leading monomial: an order that shifts with them
        lead = max((m for m in p if m[0] == lead[0]), key=lambda m: _exp_order(m[1]))
    eid = lead[1]
    c = Fraction(g, den)
    if p[lead] < 0:
        c = -c
    inv = tuple(sorted((a, -x) for a, x in common.items()))
    ieid = exp_times(eid, -1)
    q = {}
    for (pairs, e), v in p.items():
        q[(_merge(pairs, inv), exp_plus(e, ieid))] = norm_coef(Fraction(v) / c)
    mono = (tuple(sorted(common.items())), eid)
    return norm_coef(c), mono, q


def _mono_order(m):
    pairs, e = m
    return (sum(x for _, x in pairs), pairs, e)


def _exp_order(e):
    if not e:
        return (0.0, 0)
    v = S.exp_values.get(e)
    if v is None:
        v = rf_eval(S.exps[e])
        v = S.exp_values[e] = (0.0 if v is None or v != v else v, e)
    return v


def poly_register(q):
    k = frozenset(q.items())
    i = S.poly_ids.get(k)
    if i is None:
        i = len(S.polys)
        S.polys.append(q)
        S.poly_ids[k] = i
    return i


# ---------------------------------------------------------- exact division
def p_divide(p, q):
    """Exact quotient p/q or None; only for exp-free, radical-free positive powers."""
    for m in q:
        if m[1] or any(a in S.special or x < 0 for a, x in m[0]):
            return None
    for m in p:
        if m[1] or any(a in S.special or x < 0 for a, x in m[0]):
            return None
    atoms_q = set()
    for m in q:
        for a, _ in m[0]:
            atoms_q.add(a)
    atoms = set(atoms_q)
    for m in p:
        for a, _ in m[0]:
            atoms.add(a)
    if not atoms_q <= {a for m in p for a, _ in m[0]}:
        return None
    order = sorted(atoms)
    pos = {a: i for i, a in enumerate(order)}
    n = len(order)

    def vec(m):
        v = [0] * n
        for a, x in m[0]:
            v[pos[a]] = x
        return tuple(v)

    P = {vec(m): v for m, v in p.items()}
    Q = {vec(m): v for m, v in q.items()}
    lq = max(Q)
    tq = min(Q)
    lp, tp = max(P), min(P)
    if any(x < y for x, y in zip(lp, lq)) or any(x < y for x, y in zip(tp, tq)):
        return None
    for i in range(n):
        if max(m[i] for m in Q) > max(m[i] for m in P):
            return None
    cq = Q[lq]
    rest = [(m, v) for m, v in Q.items() if m != lq]
    import heapq

    heap = [tuple(-x for x in m) for m in P]
    heapq.heapify(heap)
    inheap = set(P)
    quo = {}
    steps = 0
    while heap:
        m = tuple(-x for x in heapq.heappop(heap))
        inheap.discard(m)
        v = P.pop(m, 0)
        if not v:
            continue
        d = tuple(x - y for x, y in zip(m, lq))
        if any(x < 0 for x in d):
            return None
        c = norm_coef(Fraction(v) / cq)
        quo[d] = c
        steps += 1
        if steps > 20000:
            return None
        for mm, vv in rest:
            k = tuple(x + y for x, y in zip(d, mm))
            nv = P.get(k, 0) - c * vv
            if nv:
                P[k] = nv
                if k not in inheap:
                    heapq.heappush(heap, tuple(-x for x in k))
                    inheap.add(k)
            else:
                P.pop(k, None)
    return {(tuple((order[i], x) for i, x in enumerate(m) if x), 0): v for m, v in quo.items()}


# ------------------------------------------------------- rational functions
def den_expand(den):
    r = {ONE_MONO: 1}
    for i, e in den:
        r = p_mul(r, p_pow(S.polys[i], e))
    return r


def rf_make(num, den):
    """Cancel what can be cancelled."""
    if not num:
        return RF_ZERO
    if not den:
        return RF(num)
    den = dict(den)
    for i in list(den):
        f = S.polys[i]
        if len(num) * len(f) > 200000:
            continue
        while den.get(i):
            q = p_divide(num, f)
            if q is None:
                break
            num = q
            den[i] -= 1
            if not den[i]:
                del den[i]
    return RF(num, tuple(sorted(den.items())))


def rf_add(a, b, c=1):
    if not b.num:
        return a
    if not a.num:
        return rf_scale(b, c)
    if a.den == b.den:
        return rf_make(p_add(a.num, b.num, c), a.den)
    da, db = dict(a.den), dict(b.den)
    common = {}
    for i in set(da) | set(db):
        common[i] = max(da.get(i, 0), db.get(i, 0))
    ma = den_expand([(i, e - da.get(i, 0)) for i, e in sorted(common.items()) if e > da.get(i, 0)])
    mb = den_expand([(i, e - db.get(i, 0)) for i, e in sorted(common.items()) if e > db.get(i, 0)])
    num = p_add(p_mul(a.num, ma), p_mul(b.num, mb), c)
    return rf_make(num, tuple(sorted(common.items())))


def rf_sub(a, b):
    return rf_add(a, b, -1)


def rf_scale(a, c):
    if c == 0:
        return RF_ZERO
    return RF(p_scale(a.num, c), a.den)


def rf_mul(a, b):
    if not a.num or not b.num:
        return RF_ZERO
    if a.is_const():
        return rf_scale(b, a.const_value())
    if b.is_const():
        return rf_scale(a, b.const_value())
    den = dict(a.den)
    for i, e in b.den:
        den[i] = den.get(i, 0) + e
    na, nb = a.num, b.num
    # cross cancel before multiplying
    if b.den and na:
        t = rf_make(na, b.den)
        na = t.num
        bd = dict(t.den)
    else:
        bd = dict(b.den)
    if a.den and nb:
        t = rf_make(nb, a.den)
        nb = t.num
        ad = dict(t.den)
    else:
        ad = dict(a.den)
    den = dict(ad)
    for i, e in bd.items():
        den[i] = den.get(i, 0) + e
    num = p_mul(na, nb)
    if any(any(a_ in S.special for a_, _ in m[0]) for m in num) and den:
        return rf_make(num, tuple(sorted(den.items())))
    return RF(num, tuple(sorted(den.items())))


def mono_inverse(mono):
    """Return (numerator poly, den dict) of 1/mono."""
    pairs, eid = mono
    keep = []
    extra = {ONE_MONO: 1}
    den = {}
    for a, x in pairs:
        if a in S.special:
            kind, data = S.atoms[a]
            assert x == 1
            if kind == "sgn":
                keep.append((a, 1))
                continue
            # 1/s = s / p
            keep.append((a, 1))
            p = S.polys[data]
            c, m, q = p_content(p)
            # p = c*m*q
            extra = p_scale(extra, Fraction(1) / c)
            n2, d2 = mono_inverse(m)
            extra = p_mul(extra, n2)
            for i, e in d2.items():
                den[i] = den.get(i, 0) + e
            if not (len(q) == 1 and ONE_MONO in q):
                i = poly_register(q)
                den[i] = den.get(i, 0) + 1
        else:
            keep.append((a, -x))
    base = {(tuple(sorted(keep)), exp_times(eid, -1)): 1}
    return p_mul(base, extra), den


def rf_inv(a):
    if not a.num:
        raise ZeroDivisionError
    c, mono, q = p_content(a.num)
    num, den = mono_inverse(mono)
    num = p_scale(num, Fraction(1) / c)
    if not (len(q) == 1 and ONE_MONO in q):
        i = poly_register(q)
        den[i] = den.get(i, 0) + 1
    num = p_mul(num, den_expand(a.den))
    return rf_make(num, tuple(sorted(den.items())))


def rf_div(a, b):
    if b.is_const():
        return rf_scale(a, 1 / b.const_value())
    return rf_mul(a, rf_inv(b))


def rf_pow(a, n):
    if n < 0:
        return rf_pow(rf_inv(a), -n)
    r = RF_ONE
    for _ in range(n):
        r = rf_mul(r, a)
    return r


# ----------------------------------------------------------------- radicals
def _int_square_split(n):
    """n = a*a*b with b squarefree up to small primes."""
    a, b = 1, 1
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        a *= p ** (e // 2)
        if e % 2:
            b *= p
    r = math.isqrt(n)
    if r * r == n:
        a *= r
    else:
        b *= n
    return a, b


def sqrt_poly_atom(p):
    """Radical of a poly that is already primitive (>= 2 terms, or an atom, or an int)."""
    i = poly_register(p)
    return atom("sqrt", i, special=True, pos=True)


def rf_sqrt(a, up_to_sign=False):
    if not a.num:
        return RF_ZERO
    c, mono, q = p_content(a.num)
    if c < 0:
        c = -c
        q = p_scale(q, -1)
    c = Fraction(c)
    x, y = _int_square_split(c.numerator * c.denominator)
    out = rf_const(Fraction(x, c.denominator))
    if y != 1:
        out = rf_mul(out, rf_atom(sqrt_poly_atom({ONE_MONO: y})))
    pairs, eid = mono
    for at, e in pairs:
        if S.atoms[at][0] == "sgn":
            raise Unsupported("sqrt of sign")
        if at in S.special:
            # sqrt of a radical: fourth root, give up on canonical form
            raise Unsupported("nested radical")
        h = e // 2 if e >= 0 else -((-e) // 2)
        rem = e - 2 * h
        if h:
            if not up_to_sign and at not in S.posatoms and h % 2:
                raise Unsupported("sqrt of square of unsigned atom")
            out = rf_mul(out, rf_atom(at, h))
        if rem:
            s = rf_atom(sqrt_poly_atom({(((at, 1),), 0): 1}))
            out = rf_mul(out, s if rem > 0 else rf_inv(s))
    if eid:
        out = rf_mul(out, RF({((), exp_intern(rf_scale(S.exps[eid], Fraction(1, 2)))): 1}))
    if not (len(q) == 1 and ONE_MONO in q):
        r = p_sqrt(q) if (up_to_sign and len(q) <= 60) else None
        if r is not None:
            out = rf_mul(out, RF(r))
        else:
            out = rf_mul(out, rf_atom(sqrt_poly_atom(q)))
    elif q[ONE_MONO] != 1:
        raise Unsupported("sqrt of negative")
    for i, e in a.den:
        h, rem = divmod(e, 2)
        den = RF_ONE
        if h:
            if not up_to_sign and h % 2 and not poly_positive(S.polys[i]):
                # sqrt(f^2) = |f|
                pass
            den = rf_mul(den, RF(p_pow(S.polys[i], h)))
        if rem:
            f = S.polys[i]
            den = rf_mul(den, rf_atom(sqrt_poly_atom(f)))
        out = rf_div(out, den)
    return out


def p_sqrt(p):
    """Square root of a polynomial that is a perfect square, else None."""
    for m in p:
        if m[1] or any(a in S.special or x < 0 for a, x in m[0]):
            return None
    atoms = sorted({a for m in p for a, _ in m[0]})
    pos = {a: i for i, a in enumerate(atoms)}
    n = len(atoms)

    def vec(m):
        v = [0] * n
        for a, x in m[0]:
            v[pos[a]] = x
        return tuple(v)

    P = {vec(m): Fraction(v) for m, v in p.items()}
    lead = max(P)
    if any(x % 2 for x in lead) or P[lead] < 0:
        return None
    c = P[lead]
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if rn * rn != c.numerator or rd * rd != c.denominator:
        return None
    l0 = tuple(x // 2 for x in lead)
    c0 = Fraction(rn, rd)
    root = {l0: c0}
    rem = dict(P)
    rem.pop(lead)
    for _ in range(200):
        rem = {k: v for k, v in rem.items() if v}
        if not rem:
            return {(tuple((atoms[i], x) for i, x in enumerate(m) if x), 0): norm_coef(v)
                    for m, v in root.items()}
        m = max(rem)
        d = tuple(x - y for x, y in zip(m, l0))
        if any(x < 0 for x in d) or d >= l0:
            return None
        c = rem[m] / (2 * c0)
        for k, v in root.items():
            kk = tuple(x + y for x, y in zip(k, d))
            rem[kk] = rem.get(kk, 0) - 2 * c * v
        kk = tuple(2 * x for x in d)
        rem[kk] = rem.get(kk, 0) - c * c
        root[d] = c
    return None


def poly_positive(p):
    """Cheap sufficient condition: all terms positive coefficient with even/positive atoms."""
    for (pairs, _e), v in p.items():
        if v < 0:
            return False
        for a, x in pairs:
            if x % 2 and a not in S.posatoms:
                return False
    return True


# ------------------------------------------------------------- exp and log
def rf_exp(q):
    out = RF_ONE
    if not q.num:
        return out
    rest = {}
    if q.den:
        q = _pull_logs(q)
        parts, q = q
        for at, c in parts:
            out = rf_mul(out, rf_exp(rf_scale(rf_atom(at), c)))
        if not q.num:
            return out
    if not q.den:
        for m, v in q.num.items():
            pairs, e = m
            if e == 0 and len(pairs) == 1 and pairs[0][1] == 1 and S.atoms[pairs[0][0]][0] == "log":
                c2 = Fraction(v) * 2
                if c2.denominator == 1 and abs(c2) <= 60:
                    base = log_base(pairs[0][0])
                    n = int(c2)
                    h = n // 2 if n >= 0 else -((-n) // 2)
                    if h:
                        out = rf_mul(out, rf_pow(base, h))
                    if n - 2 * h:
                        s = rf_sqrt(base)
                        out = rf_mul(out, s if n > 0 else rf_inv(s))
                    continue
            rest[m] = v
        q = RF(rest)
    if q.num:
        out = rf_mul(out, RF({((), exp_intern(q)): 1}))
    return out


def _pull_logs(q):
    """Split q = sum c_i log_i + rest, with rational c_i, where q has a denominator."""
    parts = []
    logs = sorted({a for (pairs, _e) in q.num for a, x in pairs
                   if S.atoms[a][0] == "log" and x == 1})
    if not logs:
        return parts, q
    D = den_expand(q.den)
    (dm, dv) = next(iter(D.items()))
    for at in logs:
        C = {}
        for (pairs, e), v in q.num.items():
            if (at, 1) in pairs:
                C[(tuple(p for p in pairs if p[0] != at), e)] = v
        if dm not in C:
            continue
        c = Fraction(C[dm]) / Fraction(dv)
        if p_add(C, D, -c):
            continue
        parts.append((at, c))
        q = rf_sub(q, rf_scale(rf_atom(at), c))
    return parts, q


def log_base(at):
    kind, data = S.atoms[at]
    tag, x = data
    if tag == "int":
        return rf_const(x)
    if tag == "atom":
        return rf_atom(x)
    return RF(S.polys[x])


def _log_int(n):
    """log of a positive int as RF, split over small primes."""
    out = RF_ZERO
    for p in (2, 3, 5, 7, 11, 13):
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        if e:
            out = rf_add(out, rf_scale(rf_atom(atom("log", ("int", p))), e))
    if n > 1:
        out = rf_add(out, rf_atom(atom("log", ("int", n))))
    return out


def rf_log(a):
    if not a.num:
        raise ZeroDivisionError("log 0")
    c, mono, q = p_content(a.num)
    c = Fraction(c)
    if c < 0:
        c = -c
        q = p_scale(q, -1)
    out = rf_sub(_log_int(c.numerator), _log_int(c.denominator))
    pairs, eid = mono
    flip = False
    for at, e in pairs:
        kind, data = S.atoms[at]
        if kind == "sqrt":
            out = rf_add(out, rf_scale(rf_log(RF(S.polys[data])), Fraction(e, 2)))
        elif kind == "sgn":
            raise Unsupported("log of sign")
        else:
            out = rf_add(out, rf_scale(rf_atom(atom("log", ("atom", at))), e))
    if eid:
        out = rf_add(out, S.exps[eid])
    if not (len(q) == 1 and ONE_MONO in q):
        out = rf_add(out, rf_atom(atom("log", ("poly", poly_register(q)))))
    elif q[ONE_MONO] != 1:
        raise Unsupported("log of negative number")
    for i, e in a.den:
        out = rf_sub(out, rf_scale(rf_atom(atom("log", ("poly", i))), e))
    return out


# ------------------------------------------------------------------ LDL / QR
def minors_ldl(G):
    """Leading data for an LDL decomposition of the symmetric RF matrix G.

    Returns list of rows; row k is (pivot RF or None, [W_kj RF for j>=k]) where pivot is
    D_k and W_kk = 1.
    """
    n = len(G)
    rows = []
    A = [[G[i][j] for j in range(n)] for i in range(n)]
    den = {}
    simple = True
    for i in range(n):
        for j in range(i, n):
            for f, e in A[i][j].den:
                den[f] = max(den.get(f, 0), e)
    dpoly = tuple(sorted(den.items()))
    N = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            r = A[i][j]
            d = dict(r.den)
            extra = [(f, e - d.get(f, 0)) for f, e in dpoly if e > d.get(f, 0)]
            N[i][j] = p_mul(r.num, den_expand(extra)) if extra else r.num
            N[j][i] = N[i][j]
    drf = RF(den_expand(dpoly)) if dpoly else RF_ONE

    memo = {}

    def det(rs, cs):
        if not rs:
            return {ONE_MONO: 1}
        key = (rs, cs)
        if key in memo:
            return memo[key]
        # expand along last row
        out = {}
        r = rs[-1]
        for idx, c in enumerate(cs):
            if not N[r][c]:
                continue
            sub = det(rs[:-1], cs[:idx] + cs[idx + 1:])
            if not sub:
                continue
            sign = 1 if (len(rs) - 1 + idx) % 2 == 0 else -1
            out = p_add(out, p_mul(N[r][c], sub), sign)
        memo[key] = out
        return out

    try_simple = n <= 5
    if try_simple:
        prev = {ONE_MONO: 1}
        for k in range(n):
            lead = tuple(range(k))
            dk = det(lead + (k,), lead + (k,))
            if not dk:
                simple = False
                break
            ws = []
            for j in range(k, n):
                ws.append(det(lead + (k,), lead + (j,)))
            rows.append((dk, prev, ws))
            prev = dk
        if simple:
            return "minors", rows, drf
    # generic elimination (handles zero pivots)
    rows = []
    A = [[G[i][j] for j in range(n)] for i in range(n)]
    for k in range(n):
        piv = A[k][k]
        if piv.is_zero():
            rows.append((None, [RF_ZERO] * (n - k)))
            continue
        w = [RF_ONE] + [rf_div(A[k][j], piv) for j in range(k + 1, n)]
        rows.append((piv, w))
        for i in range(k + 1, n):
            for j in range(i, n):
                A[i][j] = rf_sub(A[i][j], rf_mul(rf_mul(piv, w[i - k]), w[j - k]))
                A[j][i] = A[i][j]
    return "ldl", rows, None


def upper_factor(G, signed_key):
    """Upper triangular R with R'R = G as RF entries {(i,j): RF}."""
    n = len(G)
    mode, rows, drf = minors_ldl(G)
    out = {}
    if mode == "minors":
        sd = rf_sqrt(drf, up_to_sign=True)
        for k, (dk, prev, ws) in enumerate(rows):
            sgn = RF_ONE if signed_key is None else rf_atom(
                atom("sgn", (signed_key, k), special=True))
            root = rf_mul(rf_mul(rf_sqrt(RF(dk), True), rf_sqrt(RF(prev), True)), sd)
            inv = rf_mul(rf_inv(root), sgn)
            # R_kk = dk / root = sqrt(dk/prev/d)
            for j in range(k, n):
                out[(k, j)] = rf_mul(RF(ws[j - k]), inv) if ws[j - k] else RF_ZERO
    else:
        for k, (piv, w) in enumerate(rows):
            if piv is None:
                for j in range(k, n):
                    out[(k, j)] = RF_ZERO
                continue
            sgn = RF_ONE if signed_key is None else rf_atom(
                atom("sgn", (signed_key, k), special=True))
            s = rf_mul(rf_sqrt(piv, True), sgn)
            for j in range(k, n):
                out[(k, j)] = rf_mul(s, w[j - k])
    return out


# --------------------------------------------------------------- numeric eval
def _point(a):
    v = S.points.get(a)
    if v is None:
        kind, data = S.atoms[a]
        if kind == "v":
            h = (hash_str(data) % 997) / 997.0
            v = 0.3 + h
        elif kind == "pi":
            v = math.pi
        elif kind == "sqrt":
            p = rf_eval(RF(S.polys[data]))
            v = math.sqrt(p) if p is not None and p >= 0 else 0.77
        elif kind == "sgn":
            v = 1.0
        elif kind == "log":
            try:
                v = math.log(rf_eval(log_base(a)))
            except Exception:
                v = 0.31
        else:
            v = 0.2 + (a * 37 % 101) / 101.0
        S.points[a] = v
    return v


def hash_str(s):
    h = 5381
    for ch in str(s):
        h = (h * 33 + ord(ch)) & 0xFFFFFFFF
    return h


def rf_eval(r):
    try:
        def pe(p):
            t = 0.0
            for (pairs, e), v in p.items():
                m = float(v)
                for a, x in pairs:
                    m *= _point(a) ** x
                if e:
                    m *= math.exp(min(rf_eval(S.exps[e]), 300))
                t += m
            return t

        v = pe(r.num)
        for i, e in r.den:
            v /= pe(S.polys[i]) ** e
        return v
    except Exception:
        return None


# ------------------------------------------------------------ term -> RF
def nf(t):
    """Normal form of a real term (an ite is an atom)."""
    memo = S.memo
    if t.id in memo:
        return memo[t.id]
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in memo:
            stack.pop()
            continue
        args = u.args[1:] if u.op == "ite" else u.args
        todo = [a for a in args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[u.id] = _nf1(u, [memo[a.id] for a in args])
        stack.pop()
    return memo[t.id]


def _nf1(u, a):
    op = u.op
    if op == "c":
        return rf_const(u.val)
    if op == "v":
        return rf_atom(atom("v", u.val, pos=u.lo > 0))
    if op == "pi":
        return rf_atom(atom("pi", None, pos=True))
    if op == "add":
        return rf_add(a[0], a[1])
    if op == "mul":
        return rf_mul(a[0], a[1])
    if op == "div":
        return rf_div(a[0], a[1])
    if op == "sqrt":
        try:
            return rf_sqrt(a[0])
        except Unsupported:
            return rf_atom(atom("fn", ("sqrt", (_rfkey(a[0]),)), pos=True))
    if op == "exp":
        return rf_exp(a[0])
    if op == "log":
        try:
            return rf_log(a[0])
        except Unsupported:
            return rf_atom(atom("fn", ("log", (_rfkey(a[0]),))))
    if op == "abs":
        return rf_abs(a[0])
    if op == "max":
        ks = tuple(sorted((_rfkey(x) for x in a)))
        if ks[0] == ks[1]:
            return a[0]
        d = rf_sub(a[0], a[1])
        if d.is_const():
            return a[0] if d.const_value() >= 0 else a[1]
        return rf_atom(atom("max", ks))
    if op == "ite":
        ks = (_rfkey(a[0]), _rfkey(a[1]))
        if ks[0] == ks[1]:
            return a[0]
        return rf_atom(atom("fn", ("ite", (u.args[0].id,) + ks)))
    if op == "fn":
        return rf_atom(atom("fn", (u.val, tuple(_rfkey(x) for x in a))))
    if op == "qr":
        nr, nc, i, j = u.val
        key = ("qr",) + tuple(x.id for x in u.args)
        if key not in S.ldl:
            M = [[a[r * nc + c] for c in range(nc)] for r in range(nr)]
            G = [[None] * nc for _ in range(nc)]
            for p in range(nc):
                for q in range(p, nc):
                    acc = RF_ZERO
                    for r in range(nr):
                        acc = rf_add(acc, rf_mul(M[r][p], M[r][q]))
                    G[p][q] = G[q][p] = acc
            S.ldl[key] = upper_factor(G, hash(key) if False else _matkey(key))
        return S.ldl[key][(i, j)]
    if op == "chol":
        n, i, j = u.val
        key = ("chol",) + tuple(x.id for x in u.args)
        if key not in S.ldl:
            G = [[a[r * n + c] for c in range(n)] for r in range(n)]
            S.ldl[key] = upper_factor(G, None)
        return S.ldl[key][(i, j)]
    raise Unsupported(op)


_mat_ids = {}


def _matkey(key):
    return _mat_ids.setdefault(key, len(_mat_ids))


_rf_table = {}


def _rfkey(r):
    """Intern an RF and return a small integer (kept in S)."""
    tab = S.__dict__.setdefault("rftab", {})
    lst = S.__dict__.setdefault("rflist", [])
    k = r.key()
    i = tab.get(k)
    if i is None:
        fp = rf_eval(r)
        for j, o in enumerate(lst):
            fo = rf_eval(o)
            if fp is not None and fo is not None and abs(fp - fo) <= 1e-9 * (1 + abs(fp)):
                if rf_sub(r, o).is_zero():
                    tab[k] = j
                    return j
        i = len(lst)
        lst.append(r)
        tab[k] = i
    return i


def rf_abs(r):
    if not r.num:
        return r
    c, mono, q = p_content(r.num)
    pairs, eid = mono
    sign = 1 if c > 0 else -1
    drop = []
    known = True
    for at, e in pairs:
        if S.atoms[at][0] == "sgn":
            drop.append((at, e))
        elif at in S.posatoms or e % 2 == 0:
            pass
        else:
            known = False
    if not (len(q) == 1 and ONE_MONO in q):
        if not poly_positive(q):
            known = False
    for i, e in r.den:
        if e % 2 and not poly_positive(S.polys[i]):
            # radicands are positive on the domain
            if not _is_radicand(i):
                known = False
    if known:
        out = r
        for at, e in drop:
            out = rf_mul(out, rf_atom(at, 1))
        return rf_scale(out, sign)
    return rf_atom(atom("abs", _rfkey(r), pos=True))


def _is_radicand(i):
    return ("sqrt", i) in S.atom_ids


def log_product_zero(r):
    """True if r is a sum of rational multiples of log atoms whose product is 1."""
    if r.den:
        return False
    items = []
    for (pairs, e), v in r.num.items():
        if e or len(pairs) != 1 or pairs[0][1] != 1:
            return False
        if S.atoms[pairs[0][0]][0] != "log":
            return False
        items.append((pairs[0][0], Fraction(v)))
    den = 1
    for _, v in items:
        den = den * v.denominator // gcd(den, v.denominator)
    out = RF_ONE
    for at, v in items:
        n = int(v * den)
        if abs(n) > 24:
            return False
        out = rf_mul(out, rf_pow(log_base(at), n))
    return rf_sub(out, RF_ONE).is_zero()


def is_zero(r):
    if not r.num:
        return True
    return log_product_zero(r)
