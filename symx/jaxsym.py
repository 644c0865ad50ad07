"""A JAX trace that evaluates every primitive on arrays of symbolic reals.

Functions of the code under test run unmodified; vmap, jit, scan, cond, grad lower to
primitives that are interpreted here, eagerly, element by element.
"""
import math
from contextlib import contextmanager
from fractions import Fraction

import numpy as np

import jax
import jax.numpy as jnp
from jax import core
from jax import lax
from jax.interpreters import ad, batching, mlir, partial_eval as pe  # noqa: F401

from . import terms as T
from . import values as V
from .values import SymBool, SymReal, lift, liftb

PRIM_LOG = {}
_CUR = {"main": None}


class SymArr:
    """A symbolic array value: object ndarray + dtype."""

    __slots__ = ("a", "dtype")

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = np.dtype(dtype)

    @property
    def shape(self):
        return self.a.shape


class SymTracer(core.Tracer):
    __slots__ = ["val"]

    def __init__(self, trace, val):
        self._trace = trace
        self.val = val  # SymArr or concrete array

    @property
    def aval(self):
        v = self.val
        if isinstance(v, SymArr):
            return core.ShapedArray(v.shape, v.dtype)
        return core.raise_to_shaped(core.get_aval(v))

    def full_lower(self):
        if isinstance(self.val, SymArr):
            return self
        return self.val

    def __array__(self, dtype=None, *a, **k):
        v = self.val
        if not isinstance(v, SymArr):
            return np.asarray(v)
        out = v.a.copy()
        if v.dtype == np.bool_ or np.issubdtype(v.dtype, np.integer):
            pass
        return out

    def __jax_array__(self):
        return self

    def _scalar(self):
        v = self.val
        if isinstance(v, SymArr):
            return v.a.reshape(-1)[0]
        return np.asarray(v).reshape(-1)[0]

    def __bool__(self):
        return bool(self._scalar())

    def __float__(self):
        return float(self._scalar())

    def __int__(self):
        return int(self._scalar())

    def __index__(self):
        return int(self._scalar())

    def item(self):
        return self._scalar()

    def tolist(self):
        return np.asarray(self).tolist()

    def __iter__(self):
        for i in range(self.aval.shape[0]):
            yield self[i]

    def __len__(self):
        return self.aval.shape[0]

    def copy(self):
        return self

    def block_until_ready(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymTrace(core.Trace):
    def pure(self, val):
        return SymTracer(self, val)

    def lift(self, tracer):
        return SymTracer(self, tracer)

    def sublift(self, tracer):
        return SymTracer(self, tracer.val)

    def process_primitive(self, primitive, tracers, params):
        vals = [t.val for t in tracers]
        out = eval_prim(primitive, vals, params)
        if primitive.multiple_results:
            return [SymTracer(self, o) for o in out]
        return SymTracer(self, out)

    def process_call(self, primitive, fun, tracers, params):
        out = fun.call_wrapped(*tracers)
        return [self.full_raise(o) for o in out]

    process_map = process_call

    def process_custom_jvp_call(self, primitive, fun, jvp, tracers, *, symbolic_zeros):
        out = fun.call_wrapped(*tracers)
        return [self.full_raise(o) for o in out]

    def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers, **kw):
        out = fun.call_wrapped(*tracers)
        return [self.full_raise(o) for o in out]


@contextmanager
def session():
    with core.new_main(SymTrace) as main:
        _CUR["main"] = main
        try:
            yield
        finally:
            _CUR["main"] = None
            del main


def to_tracer(objarr, dtype=np.float64):
    trace = _CUR["main"].with_cur_sublevel()
    a = V.obj_array(objarr)
    if a.size and isinstance(a.reshape(-1)[0], SymBool):
        dtype = np.dtype(bool)
    return SymTracer(trace, SymArr(a, dtype))


V.TO_TRACER = to_tracer


# ------------------------------------------------------------------ helpers
def is_sym(v):
    return isinstance(v, SymArr)


def arr(v):
    """object ndarray of a value (symbolic or concrete)."""
    if isinstance(v, SymArr):
        return v.a
    if isinstance(v, SymTracer):
        return arr(v.val)
    return V.obj_array(np.asarray(v))


def _dtype(v):
    if isinstance(v, SymArr):
        return v.dtype
    return np.dtype(np.asarray(v).dtype)


def _shape(v):
    return v.shape if isinstance(v, SymArr) else np.shape(v)


def omap(f, *arrs):
    shape = arrs[0].shape
    out = np.empty(int(np.prod(shape)) if shape else 1, dtype=object)
    flats = [a.reshape(-1) for a in arrs]
    for i in range(out.size):
        out[i] = f(*[x[i] for x in flats])
    return out.reshape(shape)


def simplify_out(a, dtype):
    """Return a concrete bool array when all entries are constants, else SymArr."""
    dtype = np.dtype(dtype)
    if dtype == np.bool_:
        flat = a.reshape(-1)
        if all(isinstance(x, SymBool) and x.t in (T.TRUE, T.FALSE) for x in flat):
            return np.array([x.t is T.TRUE for x in flat], dtype=bool).reshape(a.shape)
    elif np.issubdtype(dtype, np.integer):
        flat = a.reshape(-1)
        if all(isinstance(x, SymReal) and x.nan is T.FALSE and x.t.op == "c" for x in flat):
            return np.array([int(x.t.val) for x in flat], dtype=dtype).reshape(a.shape)
    return SymArr(a, dtype)


RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


def eval_prim(prim, vals, params):
    name = prim.name
    if not any(is_sym(v) for v in vals):
        sub = [v for v in vals]
        with core.eval_context():
            return prim.bind(*[_concrete(v) for v in sub], **params)
    PRIM_LOG[name] = PRIM_LOG.get(name, 0) + 1
    r = RULES.get(name)
    if r is None:
        raise NotImplementedError(f"no symbolic rule for primitive {name}")
    return r(prim, vals, params)


def _concrete(v):
    if isinstance(v, np.ndarray) and v.dtype == object:
        raise AssertionError
    return v


def out_dtype(prim, vals, params):
    avals = [core.ShapedArray(_shape(v), _dtype(v)) for v in vals]
    out, _ = prim.abstract_eval(*avals, **params)
    return out


# ------------------------------------------------------------- jaxpr evaluator
def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if type(v) is core.Literal:
            return v.val
        return env[v]

    for v, val in zip(jaxpr.constvars, consts):
        env[v] = val.val if isinstance(val, SymTracer) else val
    for v, val in zip(jaxpr.invars, args):
        env[v] = val
    for eqn in jaxpr.eqns:
        vals = [read(v) for v in eqn.invars]
        out = eval_prim(eqn.primitive, vals, eqn.params)
        if eqn.primitive.multiple_results:
            for v, o in zip(eqn.outvars, out):
                env[v] = o
        else:
            env[eqn.outvars[0]] = out
    return [read(v) for v in jaxpr.outvars]


@rule("pjit", "closed_call", "core_call", "remat", "checkpoint", "custom_lin")
def _pjit(prim, vals, params):
    cj = params.get("jaxpr") or params.get("call_jaxpr")
    if hasattr(cj, "jaxpr"):
        return eval_jaxpr(cj.jaxpr, cj.consts, vals)
    return eval_jaxpr(cj, (), vals)


RULES["xla_call"] = _pjit


@rule("custom_jvp_call")
def _cjvp(prim, vals, params):
    cj = params["call_jaxpr"]
    return eval_jaxpr(cj.jaxpr, cj.consts, vals)


@rule("custom_vjp_call_jaxpr")
def _cvjp(prim, vals, params):
    cj = params["fun_jaxpr"]
    return eval_jaxpr(cj.jaxpr, cj.consts, vals)


@rule("cond")
def _cond(prim, vals, params):
    idx, *ops = vals
    branches = params["branches"]
    if not is_sym(idx):
        i = int(np.clip(int(np.asarray(idx)), 0, len(branches) - 1))
        b = branches[i]
        return eval_jaxpr(b.jaxpr, b.consts, ops)
    c = arr(idx).reshape(-1)[0]
    outs = [eval_jaxpr(b.jaxpr, b.consts, ops) for b in branches]
    if len(branches) != 2:
        raise NotImplementedError("symbolic switch")
    cond = liftb(c)
    res = []
    for f, t in zip(outs[0], outs[1]):
        res.append(simplify_out(omap(lambda x, y: _ite(cond, y, x), arr(f), arr(t)), _dtype(t)))
    return res


@rule("scan")
def _scan(prim, vals, params):
    nc, ncar = params["num_consts"], params["num_carry"]
    length, reverse = params["length"], params["reverse"]
    cj = params["jaxpr"]
    consts, carry, xs = vals[:nc], list(vals[nc:nc + ncar]), vals[nc + ncar:]
    nys = len(cj.jaxpr.outvars) - ncar
    ys = [[None] * length for _ in range(nys)]
    order = range(length - 1, -1, -1) if reverse else range(length)
    for i in order:
        x_i = [SymArr(_sub(x.a, i), x.dtype) if is_sym(x) else np.asarray(x)[i] for x in xs]
        outs = eval_jaxpr(cj.jaxpr, cj.consts, list(consts) + carry + x_i)
        carry = list(outs[:ncar])
        for k, y in enumerate(outs[ncar:]):
            ys[k][i] = y
    res = carry
    for k in range(nys):
        aval = cj.jaxpr.outvars[ncar + k].aval
        if any(is_sym(y) for y in ys[k]):
            a = np.stack([arr(y).reshape(aval.shape) for y in ys[k]]) if length else np.empty(
                (0,) + aval.shape, dtype=object)
            res.append(SymArr(a, aval.dtype))
        else:
            res.append(np.stack([np.asarray(y) for y in ys[k]]) if length else np.zeros(
                (0,) + aval.shape, aval.dtype))
    return res


def _sub(a, i):
    r = a[i]
    if not isinstance(r, np.ndarray) or r.dtype != object:
        o = np.empty((), dtype=object)
        o[()] = r
        return o
    return r


@rule("while")
def _while(prim, vals, params):
    cn, bn = params["cond_nconsts"], params["body_nconsts"]
    cc, bc, carry = vals[:cn], vals[cn:cn + bn], list(vals[cn + bn:])
    cj, bj = params["cond_jaxpr"], params["body_jaxpr"]
    for _ in range(2000):
        (p,) = eval_jaxpr(cj.jaxpr, cj.consts, list(cc) + carry)
        if is_sym(p):
            p = bool(p.a.reshape(-1)[0])
        if not bool(np.asarray(p)):
            return carry
        carry = list(eval_jaxpr(bj.jaxpr, bj.consts, list(bc) + carry))
    raise NotImplementedError("while loop bound")


# --------------------------------------------------------------- data movement
_POSITIONAL = (
    "reshape broadcast_in_dim transpose squeeze expand_dims slice dynamic_slice gather rev "
    "concatenate pad copy copy_p real_dtype"
).split()


def _ids_eval(prim, vals, params, sym_pos):
    """Run the real primitive on integer position ids and map results back.

    Positions that are not symbolic operands (e.g. indices) are passed as they are.
    """
    pool = [SymReal(T.ZERO, T.TRUE)]  # id 0: fill value
    ids = []
    out_dt = None
    for k, v in enumerate(vals):
        if k in sym_pos:
            a = arr(v)
            n = a.size
            ids.append(np.arange(len(pool), len(pool) + n, dtype=np.int64).reshape(a.shape))
            pool.extend(a.reshape(-1))
            if out_dt is None or is_sym(v):
                out_dt = _dtype(v) if out_dt is None else out_dt
        else:
            ids.append(np.asarray(v) if not is_sym(v) else None)
            if ids[-1] is None:
                raise NotImplementedError(f"symbolic index operand in {prim.name}")
    out_dt = np.result_type(*[_dtype(vals[k]) for k in sym_pos])
    p = dict(params)
    with core.eval_context():
        res = prim.bind(*ids, **p)
    res = np.asarray(res)
    fill = SymReal(T.ZERO, T.TRUE) if out_dt != np.bool_ else SymBool(T.FALSE)
    if np.issubdtype(out_dt, np.integer):
        fill = SymReal(T.const(int(np.iinfo(out_dt).min)))
    out = np.empty(res.size, dtype=object)
    flat = res.reshape(-1)
    for i in range(flat.size):
        j = int(flat[i])
        out[i] = pool[j] if 0 < j < len(pool) else fill
    return simplify_out(out.reshape(res.shape), out_dt)


@rule("reshape", "broadcast_in_dim", "transpose", "squeeze", "expand_dims", "slice", "rev", "copy")
def _move1(prim, vals, params):
    if prim.name == "broadcast_in_dim" and len(vals) > 1:
        raise NotImplementedError("dynamic broadcast")
    return _ids_eval(prim, vals, params, {0})


@rule("concatenate")
def _concat(prim, vals, params):
    return _ids_eval(prim, vals, params, set(range(len(vals))))


@rule("pad")
def _pad(prim, vals, params):
    return _ids_eval(prim, vals, params, {0, 1})


@rule("gather")
def _gather(prim, vals, params):
    p = dict(params)
    a, idx = vals
    if is_sym(idx):
        raise NotImplementedError("symbolic gather index")
    p["fill_value"] = None
    mode = str(params["mode"])
    if "FILL" in mode:
        p["fill_value"] = 0
    return _ids_eval(prim, vals, p, {0})


@rule("dynamic_slice")
def _dslice(prim, vals, params):
    if any(is_sym(v) for v in vals[1:]):
        raise NotImplementedError("symbolic dynamic_slice index")
    return _ids_eval(prim, vals, params, {0})


@rule("dynamic_update_slice")
def _dus(prim, vals, params):
    return _ids_eval(prim, vals, params, {0, 1})


@rule("copy_p")
def _copyp(prim, vals, params):
    return vals[0]


@rule("select_and_gather_add", "select_and_scatter_add")
def _unsup(prim, vals, params):
    raise NotImplementedError(prim.name)


@rule("scatter", "scatter_add", "scatter-add", "scatter_mul", "scatter-update",
      "scatter-min", "scatter_min", "scatter-max", "scatter_max")
def _scatter(prim, vals, params):
    operand, idx, upd = vals
    if is_sym(idx):
        raise NotImplementedError("symbolic scatter index")
    oshape = _shape(operand)
    n = int(np.prod(oshape)) if oshape else 1
    a = arr(operand).reshape(-1).copy()
    u = arr(upd).reshape(-1)
    # find for every update element its target: scatter distinct ids one at a time is
    # slow; scatter the update ids into a zero array per collision level instead
    uids = np.arange(1, u.size + 1, dtype=np.int64).reshape(_shape(upd))
    dn = params["dimension_numbers"]
    common = dict(
        dimension_numbers=dn,
        indices_are_sorted=False,
        unique_indices=False,
        mode=params["mode"],
    )
    idxc = jnp.asarray(np.asarray(idx))
    with core.eval_context():
        cnt = np.asarray(lax.scatter_add(
            jnp.zeros(oshape, jnp.int64), idxc, jnp.ones(_shape(upd), jnp.int64), **common))
        if cnt.max(initial=0) <= 1:
            where = np.asarray(lax.scatter_add(
                jnp.zeros(oshape, jnp.int64), idxc, jnp.asarray(uids), **common)).reshape(-1)
            targets = [(i, int(where[i]) - 1) for i in range(n) if where[i]]
        else:
            targets = []
            for k in range(u.size):
                one = np.zeros(u.size, dtype=np.int64)
                one[k] = 1
                w = np.asarray(lax.scatter_add(
                    jnp.zeros(oshape, jnp.int64), idxc,
                    jnp.asarray(one.reshape(_shape(upd))), **common)).reshape(-1)
                for i in np.nonzero(w)[0]:
                    targets.append((int(i), k))
    for i, k in targets:
        if prim.name in ("scatter", "scatter-update"):
            a[i] = u[k]
        elif prim.name in ("scatter-add", "scatter_add"):
            a[i] = a[i] + u[k]
        elif prim.name in ("scatter-min", "scatter_min"):
            a[i] = _min(a[i], u[k])
        elif prim.name in ("scatter-max", "scatter_max"):
            a[i] = _max(a[i], u[k])
        else:
            a[i] = a[i] * u[k]
    return simplify_out(a.reshape(oshape), _dtype(operand))


@rule("scatter-mul")
def _scmul(prim, vals, params):
    class P:
        name = "scatter_mul"
    return _scatter(P, vals, params)


# ---------------------------------------------------------------- elementwise
def _ite(c, a, b):
    """ite over SymReal/SymBool/number values; c bool term."""
    if c is T.TRUE:
        return a
    if c is T.FALSE:
        return b
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return SymBool(T.or_(T.and_(c, a.t), T.and_(T.not_(c), b.t)))
    a, b = lift(a), lift(b)
    if a.nan is T.TRUE:
        return SymReal(b.t, T.or_(c, b.nan))
    if b.nan is T.TRUE:
        return SymReal(a.t, T.or_(T.not_(c), a.nan))
    nan = T.or_(T.and_(c, a.nan), T.and_(T.not_(c), b.nan))
    return SymReal(T.ite(c, a.t, b.t), nan)


def ew(*names):
    def deco(f):
        def r(prim, vals, params):
            o = out_dtype(prim, vals, params)
            arrs = [a if a.shape == o.shape else np.broadcast_to(a, o.shape)
                    for a in (arr(v) for v in vals)]
            return simplify_out(omap(f, *arrs), o.dtype)

        for n in names:
            RULES[n] = r
        return f

    return deco


def _isb(x):
    return isinstance(x, SymBool)


ew("add", "add_any")(lambda a, b: a + b)
ew("sub")(lambda a, b: a - b)
ew("mul")(lambda a, b: lift(a) * b)
ew("div")(lambda a, b: lift(a) / b)
ew("neg")(lambda a: -lift(a))
ew("exp")(lambda a: lift(a).exp())
ew("exp2")(lambda a: SymReal(T.exp(T.mul(lift(a).t, T.log(T.const(2)))), lift(a).nan))
ew("log")(lambda a: _log(lift(a)))
ew("log1p")(lambda a: _log(lift(a) + 1))
ew("expm1")(lambda a: lift(a).exp() - 1)
ew("sqrt")(lambda a: lift(a).sqrt())
ew("rsqrt")(lambda a: lift(1) / lift(a).sqrt())
ew("cbrt")(lambda a: lift(a) ** Fraction(1, 3))
ew("abs")(lambda a: abs(lift(a)))
ew("square")(lambda a: lift(a) * lift(a))
ew("is_finite")(lambda a: SymBool(T.FALSE if lift(a).t.op == "inf" else T.not_(lift(a).nan)))
ew("lt")(lambda a, b: lift(a) < b)
ew("le")(lambda a, b: lift(a) <= b)
ew("gt")(lambda a, b: lift(a) > b)
ew("ge")(lambda a, b: lift(a) >= b)
ew("eq")(lambda a, b: (a == b))
ew("ne")(lambda a, b: (a != b))
ew("stop_gradient")(lambda a: a)
ew("real", "conj", "copy_elem", "optimization_barrier_elem")(lambda a: a)
ew("logistic")(lambda a: lift(1) / (lift(1) + (-lift(a)).exp()))


def _log(x):
    return SymReal(T.log(x.t), x.nan)


@ew("sign")
def _sign(a):
    a = lift(a)
    return SymReal(
        T.ite(T.lt(T.ZERO, a.t), T.ONE, T.ite(T.lt(a.t, T.ZERO), T.const(-1), T.ZERO)), a.nan)


@ew("and")
def _and(a, b):
    if _isb(a):
        return a & b
    raise NotImplementedError("bitwise and")


@ew("or")
def _or(a, b):
    if _isb(a):
        return a | b
    raise NotImplementedError("bitwise or")


@ew("not")
def _not(a):
    if _isb(a):
        return ~a
    raise NotImplementedError("bitwise not")


@ew("xor")
def _xor(a, b):
    return a ^ b


@ew("max")
def _max(a, b):
    if _isb(a):
        return a | b
    a, b = lift(a), lift(b)
    return SymReal(T.max_(a.t, b.t), T.or_(a.nan, b.nan))


@ew("min")
def _min(a, b):
    if _isb(a):
        return a & b
    a, b = lift(a), lift(b)
    return SymReal(T.min_(a.t, b.t), T.or_(a.nan, b.nan))


ew("pow")(lambda a, b: lift(a) ** lift(b))
ew("atan2")(lambda a, b: SymReal(T.fn("atan2", lift(a).t, lift(b).t), T.or_(lift(a).nan, lift(b).nan)))
for _n in ("tanh", "sin", "cos", "erf", "erfc", "erf_inv", "lgamma", "digamma", "tan", "floor",
           "ceil", "round", "asinh", "acosh", "atanh", "sinh", "cosh", "asin", "acos", "atan"):
    def _mk(_n):
        return lambda a: SymReal(T.fn(_n, lift(a).t), lift(a).nan)
    ew(_n)(_mk(_n))


@rule("integer_pow")
def _ipow(prim, vals, params):
    y = params["y"]
    return SymArr(omap(lambda a: lift(a) ** y, arr(vals[0])), _dtype(vals[0]))


@rule("convert_element_type", "reduce_precision", "copy_elem", "device_put", "optimization_barrier")
def _convert(prim, vals, params):
    if prim.name == "optimization_barrier":
        return vals
    a = arr(vals[0])
    new = params.get("new_dtype", _dtype(vals[0]))
    new = np.dtype(new)
    old = _dtype(vals[0])
    if new == old:
        return vals[0]
    if new == np.bool_:
        return simplify_out(omap(lambda x: SymBool(liftb(x)), a), new)
    if np.issubdtype(new, np.integer) and np.issubdtype(old, np.floating):
        raise NotImplementedError("float to int conversion of symbolic value")
    return simplify_out(omap(lift, a), new)


@rule("clamp")
def _clamp(prim, vals, params):
    lo, x, hi = vals
    xa = arr(x)
    loa = np.broadcast_to(arr(lo), xa.shape)
    hia = np.broadcast_to(arr(hi), xa.shape)

    def f(l, v, h):
        l, v, h = lift(l), lift(v), lift(h)
        return SymReal(T.min_(T.max_(v.t, l.t), h.t), T.or_(l.nan, v.nan, h.nan))

    return SymArr(omap(f, loa, xa, hia), _dtype(x))


@rule("select_n")
def _select(prim, vals, params):
    which, *cases = vals
    arrs = [arr(c) for c in cases]
    shape = arrs[0].shape
    dt = _dtype(cases[0])
    if is_sym(which):
        if len(cases) != 2:
            raise NotImplementedError
        w = np.broadcast_to(arr(which), shape)
        return simplify_out(omap(lambda c, f, t: _ite(liftb(c), t, f), w, arrs[0], arrs[1]), dt)
    w = np.broadcast_to(np.asarray(which).astype(int), shape)
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        out[ix] = arrs[w[ix]][ix]
    return simplify_out(out, dt)


# ------------------------------------------------------------------ reductions
def _reduce(a, axes, f, init=None):
    axes = tuple(ax % a.ndim for ax in axes)
    keep = [i for i in range(a.ndim) if i not in axes]
    t = np.transpose(a, keep + list(axes))
    ks = tuple(a.shape[i] for i in keep)
    t = t.reshape((int(np.prod(ks)) if ks else 1, -1)) if a.size else None
    n = int(np.prod(ks)) if ks else 1
    out = np.empty(n, dtype=object)
    for i in range(n):
        acc = init
        if t is not None:
            for x in t[i]:
                acc = x if acc is None else f(acc, x)
        out[i] = acc
    return out.reshape(ks)


@rule("reduce_sum")
def _rsum(prim, vals, params):
    return simplify_out(_reduce(arr(vals[0]), params["axes"], lambda a, b: a + b, lift(0)), _dtype(vals[0]))


@rule("reduce_prod")
def _rprod(prim, vals, params):
    return simplify_out(_reduce(arr(vals[0]), params["axes"], lambda a, b: lift(a) * b, lift(1)), _dtype(vals[0]))


@rule("reduce_max")
def _rmax(prim, vals, params):
    return SymArr(_reduce(arr(vals[0]), params["axes"], _max), _dtype(vals[0]))


@rule("reduce_min")
def _rmin(prim, vals, params):
    return SymArr(_reduce(arr(vals[0]), params["axes"], _min), _dtype(vals[0]))


@rule("reduce_and")
def _rand(prim, vals, params):
    return simplify_out(_reduce(arr(vals[0]), params["axes"], lambda a, b: a & b, SymBool(T.TRUE)), bool)


@rule("reduce_or")
def _ror(prim, vals, params):
    return simplify_out(_reduce(arr(vals[0]), params["axes"], lambda a, b: a | b, SymBool(T.FALSE)), bool)


@rule("argmax", "argmin")
def _argm(prim, vals, params):
    """Position of the first largest or smallest element; branches over the comparisons."""
    a = arr(vals[0])
    (ax,) = params["axes"]
    t = np.moveaxis(a, ax % a.ndim, -1)
    out = np.empty(t.shape[:-1], dtype=np.dtype(params["index_dtype"]))
    for ix in np.ndindex(*out.shape):
        row = [lift(x) for x in t[ix]]
        best = 0
        for k in range(1, len(row)):
            c = row[k] > row[best] if prim.name == "argmax" else row[k] < row[best]
            if bool(c):
                best = k
        out[ix] = best
    return out


@rule("sort")
def _sort(prim, vals, params):
    """Stable insertion sort of the first operand (others move along); branches."""
    dim = params["dimension"]
    if params.get("num_keys", 1) != 1:
        raise NotImplementedError("sort with several keys")
    mats = [np.moveaxis(arr(v), dim, -1) for v in vals]
    outs = [np.empty(m.shape, dtype=object) for m in mats]
    for ix in np.ndindex(*mats[0].shape[:-1]):
        rows = list(zip(*[m[ix] for m in mats]))
        done = []
        for r in rows:
            k = len(done)
            while k and bool(lift(r[0]) < lift(done[k - 1][0])):
                k -= 1
            done.insert(k, r)
        for j, o in enumerate(outs):
            for i, r in enumerate(done):
                o[ix + (i,)] = r[j]
    res = []
    for v, o in zip(vals, outs):
        o = np.moveaxis(o, -1, dim)
        if is_sym(v):
            res.append(SymArr(o, _dtype(v)))
        else:
            res.append(np.array([_plain(x) for x in o.reshape(-1)],
                                dtype=_dtype(v)).reshape(o.shape))
    return res


def _plain(x):
    if isinstance(x, SymReal):
        return float(x.t.val)
    return x


@rule("top_k", "approx_top_k")
def _noarg(prim, vals, params):
    raise NotImplementedError(prim.name)


@rule("remat2", "remat", "checkpoint", "remat_call")
def _remat(prim, vals, params):
    cj = params["jaxpr"]
    if hasattr(cj, "jaxpr"):
        return eval_jaxpr(cj.jaxpr, cj.consts, vals)
    return eval_jaxpr(cj, (), vals)


@rule("custom_linear_solve")
def _linear_solve(prim, vals, params):
    n = params["const_lengths"]
    lo = n.matvec + n.vecmat
    cj = params["jaxprs"].solve
    return eval_jaxpr(cj.jaxpr, cj.consts, vals[lo:lo + n.solve] + vals[sum(n):])


@rule("lu")
def _lu(prim, vals, params):
    """Decomposition without pivoting (skipping pivots that are zero constants).

    Every use of the factors that does not look at the pivots has the same value."""
    a = arr(vals[0])
    n, k = a.shape[-2:]
    if n != k:
        raise NotImplementedError("lu of a rectangular matrix")
    batch = a.shape[:-2]
    out = np.empty(a.shape, dtype=object)
    piv = np.empty(batch + (n,), dtype=np.int32)
    perm = np.empty(batch + (n,), dtype=np.int32)
    for ix in np.ndindex(*batch):
        m = [[lift(x) for x in row] for row in a[ix]]
        order = list(range(n))
        for c in range(n):
            p = next((r for r in range(c, n)
                      if not (m[r][c].t.op == "c" and m[r][c].t.val == 0)), c)
            m[c], m[p] = m[p], m[c]
            order[c], order[p] = order[p], order[c]
            piv[ix + (c,)] = p
            for r in range(c + 1, n):
                q = m[r][c] / m[c][c]
                m[r][c] = q
                for j in range(c + 1, n):
                    m[r][j] = m[r][j] - q * m[c][j]
        perm[ix] = order
        for i in range(n):
            for j in range(n):
                out[ix + (i, j)] = m[i][j]
    return [SymArr(out, _dtype(vals[0])), piv, perm]


@rule("cumsum", "cumprod", "cumlogsumexp", "cummax", "cummin")
def _cum(prim, vals, params):
    if prim.name not in ("cumsum", "cumprod", "cummax", "cummin"):
        raise NotImplementedError(prim.name)
    a = np.moveaxis(arr(vals[0]), params["axis"], 0).copy()
    idx = range(a.shape[0])
    idx = list(reversed(idx)) if params.get("reverse") else list(idx)
    f = {"cumsum": lambda x, y: x + y, "cumprod": lambda x, y: lift(x) * y,
         "cummax": _max, "cummin": _min}[prim.name]
    for p, q in zip(idx[:-1], idx[1:]):
        if a.ndim == 1:
            a[q] = f(a[p], a[q])
        else:
            a[q] = omap(f, a[p], a[q])
    return SymArr(np.moveaxis(a, 0, params["axis"]), _dtype(vals[0]))


@rule("dot_general")
def _dot(prim, vals, params):
    (lc, rc), (lb, rb) = params["dimension_numbers"]
    A, B = arr(vals[0]), arr(vals[1])
    lfree = [i for i in range(A.ndim) if i not in lc and i not in lb]
    rfree = [i for i in range(B.ndim) if i not in rc and i not in rb]
    bshape = tuple(A.shape[i] for i in lb)
    At = np.transpose(A, list(lb) + lfree + list(lc))
    Bt = np.transpose(B, list(rb) + rfree + list(rc))
    nb = int(np.prod(bshape)) if bshape else 1
    lf = tuple(A.shape[i] for i in lfree)
    rf = tuple(B.shape[i] for i in rfree)
    nl, nr = int(np.prod(lf)) if lf else 1, int(np.prod(rf)) if rf else 1
    nk = int(np.prod([A.shape[i] for i in lc])) if lc else 1
    At = At.reshape(nb, nl, nk)
    Bt = Bt.reshape(nb, nr, nk)
    out = np.empty((nb, nl, nr), dtype=object)
    for b in range(nb):
        for i in range(nl):
            for j in range(nr):
                acc = None
                for k in range(nk):
                    p = lift(At[b, i, k]) * Bt[b, j, k]
                    acc = p if acc is None else acc + p
                out[b, i, j] = lift(0) if acc is None else acc
    o = out_dtype(prim, vals, params)
    return SymArr(out.reshape(bshape + lf + rf), o.dtype)


# --------------------------------------------------------------- linear algebra
def _mat_nan(m):
    return T.or_(*[x.nan for r in m for x in r])


@rule("qr", "geqrf_qr")
def _qr(prim, vals, params):
    a = arr(vals[0])
    full = params.get("full_matrices", False)
    m, n = a.shape[-2:]
    batch = a.shape[:-2]
    k = min(m, n)
    if full and m != k:
        raise NotImplementedError("full qr")
    R = np.empty(batch + (k, n), dtype=object)
    Q = np.empty(batch + (m, k), dtype=object)
    zero = lift(0)
    for ix in np.ndindex(*batch):
        mat = [[lift(a[ix + (i, j)]) for j in range(n)] for i in range(m)]
        nan = _mat_nan(mat)
        if m < n:
            raise NotImplementedError("wide qr")
        M = T.Mat([[x.t for x in r] for r in mat])
        for i in range(k):
            for j in range(n):
                R[ix + (i, j)] = zero if j < i else SymReal(T.qr_entry(M, i, j), nan)
        # Q = M R^-1 by back substitution
        for i in range(m):
            row = []
            for j in range(k):
                s = mat[i][j]
                for l in range(j):
                    s = s - row[l] * R[ix + (l, j)]
                row.append(s / R[ix + (j, j)])
            for j in range(k):
                Q[ix + (i, j)] = row[j]
    dt = _dtype(vals[0])
    return [SymArr(Q, dt), SymArr(R, dt)]


@rule("cholesky")
def _chol(prim, vals, params):
    a = arr(vals[0])
    n = a.shape[-1]
    batch = a.shape[:-2]
    L = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*batch):
        mat = [[lift(a[ix + (i, j)]) for j in range(n)] for i in range(n)]
        nan = _mat_nan(mat)
        # jax symmetrizes or reads the lower triangle: use the lower triangle
        rows = [[mat[max(i, j)][min(i, j)].t for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(n):
                L[ix + (i, j)] = (
                    SymReal(T.chol_entry(rows, j, i), nan) if j <= i else lift(0))
    return SymArr(L, _dtype(vals[0]))


@rule("triangular_solve")
def _trisolve(prim, vals, params):
    A, B = arr(vals[0]), arr(vals[1])
    left, lower = params["left_side"], params["lower"]
    ta, unit = params["transpose_a"], params["unit_diagonal"]
    batch = A.shape[:-2]
    n = A.shape[-1]
    out = np.empty(B.shape, dtype=object)
    for ix in np.ndindex(*batch):
        a = A[ix]
        b = B[ix]
        if ta:
            a = a.T
            low = not lower
        else:
            low = lower
        if not left:
            # X A = B  <=> A' X' = B'
            a = a.T
            low = not low
            b = b.T
        x = np.empty(b.shape, dtype=object)
        order = range(n) if low else range(n - 1, -1, -1)
        for c in range(b.shape[1]):
            for i in order:
                s = lift(b[i, c])
                js = range(i) if low else range(i + 1, n)
                for j in js:
                    s = s - lift(a[i, j]) * x[j, c]
                x[i, c] = s if unit else s / lift(a[i, i])
        out[ix] = x if left else x.T
    return SymArr(out, _dtype(vals[1]))


@rule("split")
def _split(prim, vals, params):
    a = arr(vals[0])
    outs, pos = [], 0
    for s in params["sizes"]:
        sl = [slice(None)] * a.ndim
        sl[params["axis"]] = slice(pos, pos + s)
        outs.append(SymArr(a[tuple(sl)], _dtype(vals[0])))
        pos += s
    return outs


# ------------------------------------------------------------------ patches
_orig = {}


def _has_sym_leaf(x):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and x.size > 0 and V.has_sym(x)
    if isinstance(x, (list, tuple)):
        return any(_has_sym_leaf(e) for e in x)
    if type(x).__module__.startswith("pandas") and hasattr(x, "to_numpy"):
        return _has_sym_leaf(np.asarray(x))
    return False


def install():
    """Teach jnp.array/asarray about object arrays with symbolic leaves."""
    if _orig:
        return
    for name in ("array", "asarray"):
        orig = getattr(jnp, name)
        _orig[name] = orig

        def make(orig):
            def wrapper(x, *a, **k):
                if _CUR["main"] is not None:
                    if isinstance(x, SymTracer):
                        return orig(x, *a, **k)
                    if isinstance(x, np.ndarray) and x.dtype == object:
                        return _wrap_obj(x)
                    if V.TOKENS and isinstance(x, np.ndarray) and x.dtype.kind == "f":
                        if V.has_tokens(x):
                            return to_tracer(V.obj_array(x))
                    if V.TOKENS and isinstance(x, float) and x in V.TOKENS:
                        return to_tracer(V.obj_array(np.array(x)))
                    if type(x).__module__.startswith("pandas") and hasattr(x, "to_numpy"):
                        y = np.asarray(x)
                        if y.dtype == object:
                            return _wrap_obj(y)
                        if V.TOKENS and y.dtype.kind == "f" and V.has_tokens(y):
                            return to_tracer(V.obj_array(y))
                    if isinstance(x, (list, tuple)) and _has_sym_leaf(x):
                        return _wrap_obj(_nested(x))
                    if isinstance(x, (SymReal, SymBool)):
                        o = np.empty((), dtype=object)
                        o[()] = x
                        return _wrap_obj(o)
                return orig(x, *a, **k)

            wrapper.__name__ = orig.__name__
            wrapper.__wrapped__ = orig
            return wrapper

        setattr(jnp, name, make(orig))


def _nested(x):
    leaves = []
    shape = []

    def sh(y):
        if isinstance(y, np.ndarray):
            return y.shape
        if isinstance(y, (list, tuple)):
            return (len(y),) + (sh(y[0]) if len(y) else ())
        if hasattr(y, "shape"):
            return tuple(y.shape)
        return ()

    s = sh(x)

    def walk(y):
        if isinstance(y, np.ndarray):
            leaves.extend(y.reshape(-1))
        elif isinstance(y, (list, tuple)):
            for z in y:
                walk(z)
        elif hasattr(y, "aval"):
            leaves.extend(np.asarray(y).reshape(-1))
        else:
            leaves.append(y)

    walk(x)
    out = np.empty(len(leaves), dtype=object)
    for i, l in enumerate(leaves):
        out[i] = l
    return out.reshape(s)


def _wrap_obj(x):
    if not V.has_sym(x):
        # purely concrete object array
        try:
            f = x.astype(float)
            if x.size and all(isinstance(e, (bool, np.bool_)) for e in x.flat):
                return _orig["array"](x.astype(bool))
            return to_tracer(x) if _CUR["main"] is not None else _orig["array"](f)
        except Exception:
            return _orig["array"](x)
    return to_tracer(x)
