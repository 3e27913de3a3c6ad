"""Symbolic stand-ins (= assumed contracts) for numpy, scipy, copy, matplotlib
and the missing bdld.helpers submodule.  Everything here is trusted base."""
import math
import types
from fractions import Fraction

import z3

from . import core
from . import arrays as A
from .arrays import (SymArray, Filtered, Buf, Prod, asarray, conv, elementwise, from_fn, scalar, unwrap0, dim_size,
                     np_sum, np_mean, np_prod, np_min, np_max, np_any, np_all, ieq, same, dim_eq_branch)
from .core import CTX, Ext, SymBool, SymInt, SymNum, SymReal, Unsupported, ite, tb, tr, trr, wrap, IntS, RealS, BoolS

class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _unary(f, method=None):
    def g(x, out=None, where=None, dtype=None, **k):
        A.only(dict(k, dtype=dtype))
        if out is not None:
            if where is not None and where is not True:
                raise Unsupported("out= with where=")
            return _into(out, g(x))
        if method and not isinstance(x, (SymArray, Filtered, SymNum, SymBool, Ext, int, float, Fraction, list, tuple)) and hasattr(x, method):
            return getattr(x, method)()
        if isinstance(x, Filtered):
            return x._un(f)
        a = x if isinstance(x, SymArray) else asarray(x)
        if where is not None and where is not True:
            w = where if isinstance(where, SymArray) else asarray(where)
            sh = A.bcast_shape([a.shape, w.shape])
            name = CTX.fresh_name("undef")
            nd = len(A.flat_dims(sh))
            fn = z3.Function(name, *[IntS] * nd, RealS) if nd else None
            ga, gw = A.bcast_getter(a, sh), A.bcast_getter(w, sh)

            def h(idx):
                c = gw(idx)
                flat = []
                for i in idx:
                    flat.extend(i if isinstance(i, tuple) else [i])
                u = wrap(fn(*[tr(i) for i in flat])) if fn is not None else wrap(z3.Const(name, RealS))
                if c is True:
                    return f(ga(idx))
                if c is False:
                    return u
                return ite(c, f(ga(idx)), u)
            return unwrap0(from_fn(sh, h, "f"))
        return unwrap0(elementwise(f, (a,), "f" if f not in (A.sabs,) else None))
    return g


def _binary(f, dt=None):
    def g(x, y, out=None, **k):
        A.only(k)
        if out is not None:
            return _into(out, g(x, y))
        r = elementwise(f, (x if isinstance(x, SymArray) else asarray(x), y if isinstance(y, SymArray) else asarray(y)), dt)
        return unwrap0(r)
    return g


exp = _unary(core.sym_exp, "exp")
log = _unary(core.sym_log, "log")
sqrt = _unary(core.sym_sqrt, "sqrt")
abs_ = _unary(A.sabs)
expm1 = _unary(lambda x: core.sym_exp(x) - 1)
log1p = _unary(lambda x: core.sym_log(1 + x))
reciprocal = _unary(lambda x: A.np_div(1.0, x))
less = _binary(lambda a, b: a < b, "b")
less_equal = _binary(lambda a, b: a <= b, "b")
greater = _binary(lambda a, b: a > b, "b")
greater_equal = _binary(lambda a, b: a >= b, "b")


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    """|a - b| <= atol + rtol*|b|, finite values"""
    r = elementwise(lambda x, y: A.sabs(x - y) <= atol + rtol * A.sabs(y), (conv(a), conv(b)), "b")
    return unwrap0(r)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return np_all(r) if isinstance(r, SymArray) else r




def _floorf(x):
    return A.to_float(core.sym_floor(x))


def _ceilf(x):
    return A.to_float(core.sym_ceil(x))


def _truncf(x):
    return A.to_float(core.sym_trunc(x))


def _fmod(a, b):
    """remainder with the sign of the dividend"""
    return a - b * _truncf(A.np_div(a, b))


floor = _unary(_floorf)
ceil = _unary(_ceilf)


def _square(x):
    return x * x


square = _unary(_square)


def _sign(x):
    return ite(tb(x > 0), 1.0, ite(tb(x < 0), -1.0, 0.0))


sign = _unary(_sign)


def array(v, dtype=None, copy=True, **k):
    A.only(k)
    if not copy:
        return asarray_nocopy(v, dtype)
    return asarray(v, dtype)


def asarray_nocopy(v, dtype=None, **k):
    A.only(k)
    if isinstance(v, SymArray) and (dtype is None or A.same_dtype(v.dtype, dtype)):
        return v
    return asarray(v, dtype)


def _shape(s):
    return tuple(d.dims if isinstance(d, A.FlatInt) else d for d in _shape0(s))


def _shape0(s):
    if isinstance(s, (list, tuple)) and not isinstance(s, Prod):
        return tuple(s)
    if isinstance(s, SymArray):
        return tuple(s)
    if hasattr(s, "sym_len"):
        return tuple(s.sym_get(i) for i in range(s.sym_len()))
    return (s,)


def _dt(dtype, default="f"):
    if dtype is None:
        return default
    n = A.dtype_name(dtype)
    if n.startswith("int"):
        return "i"
    if n.startswith("bool"):
        return "b"
    return "f"


def full(shape, value, dtype=None):
    if _dt(dtype, A.dt_of(value)) != A.dt_of(value) and _dt(dtype) != "f":
        raise Unsupported("full with conversion")
    return from_fn(_shape(shape), lambda i: value, _dt(dtype, A.dt_of(value)))


def zeros(shape, dtype=None, **k):
    A.only(k)
    d = _dt(dtype)
    z = {"f": 0.0, "i": 0, "b": False}[d]
    return from_fn(_shape(shape), lambda i: z, d)


def ones(shape, dtype=None, **k):
    A.only(k)
    d = _dt(dtype)
    z = {"f": 1.0, "i": 1, "b": True}[d]
    return from_fn(_shape(shape), lambda i: z, d)


def empty(shape, dtype=None, **k):
    """uninitialised: arbitrary contents"""
    A.only(k)
    sh = _shape(shape)
    d = _dt(dtype)
    name = CTX.fresh_name("uninit")
    sort = {"f": RealS, "i": IntS, "b": BoolS}[d]
    nd = len(A.flat_dims(sh))
    fn = z3.Function(name, *[IntS] * nd, sort) if nd else None

    def f(idx):
        flat = []
        for i in idx:
            flat.extend(i if isinstance(i, tuple) else [i])
        return wrap(fn(*[tr(i) for i in flat])) if fn is not None else wrap(z3.Const(name, sort))

    return from_fn(sh, f, d)


def zeros_like(a, dtype=None, **k):
    A.only(k)
    a = conv(a)
    return zeros(a.shape, dtype) if dtype is not None else zeros(a.shape, {"i": int, "b": bool}.get(a.dtype))


def ones_like(a, dtype=None, **k):
    A.only(k)
    a = conv(a)
    return ones(a.shape, dtype) if dtype is not None else ones(a.shape, {"i": int, "b": bool}.get(a.dtype))


def empty_like(a, dtype=None, **k):
    A.only(k)
    a = conv(a)
    return empty(a.shape, dtype) if dtype is not None else empty(a.shape, {"i": int, "b": bool}.get(a.dtype))


def full_like(a, v, dtype=None, **k):
    A.only(k)
    a = conv(a)
    return full(a.shape, v, dtype or a.dtype)


def arange(*a, **k):
    A.only(k)
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    if not (A.is_int(start) and A.is_int(stop) and isinstance(step, int) and step == 1):
        raise Unsupported("arange with step")
    n = stop - start
    if not isinstance(n, int) and not CTX.known(tr(n) >= 0):
        if n < 0:
            n = 0
    elif isinstance(n, int):
        n = max(n, 0)
    r = from_fn((n,), lambda i: start + i[0], "i")
    r.index_set = (n, lambda i: True, r.buf.nwrites) if isinstance(start, int) and start == 0 else None
    return r


def linspace(start, stop, num=50, **k):
    if k:
        raise Unsupported("linspace options")
    n = num

    def f(idx):
        i = idx[0]
        if isinstance(n, int):
            if n == 1:
                return A.to_float(start)
            return A.to_float(start + A.np_div(i * (stop - start), n - 1))
        return A.to_float(start + A.np_div(i * (stop - start), n - 1))

    return from_fn((n,), f, "f")


def meshgrid(*axes, indexing="xy", **k):
    A.only(k)
    ax = [conv(a) for a in axes]
    n = len(ax)
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    elif indexing not in ("xy", "ij"):
        raise ValueError("indexing")
    shape = tuple(ax[o].shape[0] for o in order)
    out = []
    for j in range(n):
        g = ax[j].getter()
        p = order.index(j)
        out.append(from_fn(shape, (lambda g, p: lambda idx: g((idx[p],)))(g, p), ax[j].dtype))
    return out


def seq(x):
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, SymArray):
        return list(x)
    if hasattr(x, "sym_len"):
        n = x.sym_len()
        if isinstance(n, int):
            return [x.sym_get(i) for i in range(n)]
    if isinstance(x, types.GeneratorType):
        return list(x)
    raise Unsupported("sequence of symbolic length")


def stack(arrs, axis=0):
    arrs = [conv(a) for a in seq(arrs)]
    nd = arrs[0].ndim + 1
    axis = axis % nd
    for a in arrs[1:]:
        if a.ndim != nd - 1 or not all(dim_eq_branch(x, y) for x, y in zip(a.shape, arrs[0].shape)):
            raise ValueError("all input arrays must have the same shape")
    gs = [a.getter() for a in arrs]
    sh = arrs[0].shape[:axis] + (len(arrs),) + arrs[0].shape[axis:]

    def f(idx):
        j = idx[axis]
        rest = tuple(idx[:axis]) + tuple(idx[axis + 1:])
        if isinstance(j, int):
            return gs[j](rest)
        out = gs[-1](rest)
        for q in range(len(gs) - 2, -1, -1):
            out = ite(ieq(j, q), gs[q](rest), out)
        return out
    return from_fn(sh, f, A.join_dt(a.dtype for a in arrs))


def concatenate(arrs, axis=0):
    arrs = [conv(a) for a in seq(arrs)]
    if axis is None:
        arrs = [a.reshape(-1) for a in arrs]
        axis = 0
    nd = arrs[0].ndim
    axis = axis % nd
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for k in range(nd):
            if k != axis and not dim_eq_branch(a.shape[k], arrs[0].shape[k]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    gs = [a.getter() for a in arrs]
    sizes = [dim_size(a.shape[axis]) for a in arrs]
    tot = 0
    for s in sizes:
        tot = tot + s
    # keep flattened (product) dims of the other axes in the most structured form
    base = list(arrs[0].shape)
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis and isinstance(a.shape[k], Prod):
                base[k] = a.shape[k]
    for a in arrs:
        for k in range(nd):
            if k != axis and isinstance(base[k], Prod) and not isinstance(a.shape[k], Prod):
                raise Unsupported("mixed flattened dimensions")
    base[axis] = tot
    if isinstance(arrs[0].shape[axis], Prod):
        raise Unsupported("concatenation along flattened dimension")

    def f(idx):
        j = idx[axis]
        off = 0
        out = None
        conds = []
        for g, s in zip(gs, sizes):
            conds.append((off, s, g))
            off = off + s

        def get(o, g):
            return g(tuple(idx[:axis]) + (j - o,) + tuple(idx[axis + 1:]))
        if isinstance(j, int) and all(isinstance(o, int) and isinstance(s, int) for o, s, _ in conds):
            for o, s, g in conds:
                if o <= j < o + s:
                    return get(o, g)
            raise IndexError("index out of bounds")
        for n_, (o, s, g) in enumerate(reversed(conds)):
            if out is None:
                out = get(o, g)
            else:
                out = ite(z3.simplify(tr(j) < tr(o + s)), get(o, g), out)
        return out
    return from_fn(tuple(base), f, A.join_dt(a.dtype for a in arrs))


class _C:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        arrs = []
        for k in key:
            a = conv(k)
            if a.ndim == 0:
                a = a.reshape(1, 1)
            elif a.ndim == 1:
                a = from_fn((a.shape[0], 1), (lambda g: lambda idx: g((idx[0],)))(a.getter()), a.dtype)
            arrs.append(a)
        return concatenate(arrs, axis=-1)


c_ = _C()


def column_stack(arrs):
    return c_[tuple(seq(arrs))]


def vstack(arrs):
    arrs = [conv(a) for a in seq(arrs)]
    arrs = [a.reshape((1,) + a.shape) if a.ndim == 1 else a for a in arrs]
    return concatenate(arrs, axis=0)


def hstack(arrs):
    arrs = [conv(a) for a in seq(arrs)]
    return concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def append(a, v, axis=None):
    if axis is None:
        return concatenate([conv(a).reshape(-1), conv(v).reshape(-1)])
    return concatenate([a, v], axis)


def where(c, a=None, b=None):
    c = conv(c)
    if a is None:
        if c.ndim != 1:
            raise Unsupported("np.where indices of multidimensional array")
        return (index_array(c),)
    a, b = (x if isinstance(x, SymArray) else asarray(x) for x in (a, b))

    def f(x, y, z):
        return ite(tb(x), y, z)
    r = elementwise(f, (c, a, b), A.join_dt([a.dtype, b.dtype]))
    return unwrap0(r)


def nonzero(c):
    return where(c)


def flatnonzero(c):
    return where(conv(c).reshape(-1))[0]


def argwhere(c):
    raise Unsupported("argwhere")


class IndexSet:
    """the indices i < n with pred(i), in increasing (or shuffled) order"""

    dtype = "i"

    def __init__(self, n, pred, shuffled=None):
        self.n, self.pred, self.shuffled = n, pred, shuffled

    def sym_len(self):
        return A.agg_sum(self.n, lambda i: A.mask_int(self.pred(i)))

    def sym_get(self, i):
        raise Unsupported("element of index set")

    @property
    def size(self):
        return self.sym_len()

    @property
    def shape(self):
        return (self.sym_len(),)

    def copy(self):
        return IndexSet(self.n, self.pred, self.shuffled)

    def tolist(self):
        return self

    def __getitem__(self, k):
        raise Unsupported("element of index set")


def index_array(c):
    g = c.getter()
    n = c.shape[0]
    if isinstance(n, int):
        # concrete: branch on every element
        out = []
        for i in range(n):
            if g((i,)):
                out.append(i)
        return asarray(out, dtype=int) if out else SymArray(Buf((0,), cells={}, dtype="i"))
    return IndexSet(n, lambda i: g((i,)))


def count_nonzero(a, axis=None):
    a = conv(a)
    if isinstance(a, SymArray) and a.dtype != "b":
        a = a != 0
    if isinstance(a, bool):
        return int(a)
    return np_sum(a, axis)


def array_equal(a, b, **k):
    A.only(k)
    a, b = conv(a), conv(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not dim_eq_branch(x, y):
            return False
    return np_all(a == b)


def isinf(x):
    def f(v):
        if isinstance(v, Ext):
            return wrap(z3.simplify(z3.Or(v.p, v.n)))
        return core._isinf(v)
    return unwrap0(elementwise(f, (conv(x),), "b"))


def isfinite(x):
    def f(v):
        if isinstance(v, Ext):
            return wrap(z3.simplify(z3.Not(z3.Or(v.p, v.n))))
        return not core._isinf(v)
    return unwrap0(elementwise(f, (conv(x),), "b"))


def isnan(x):
    return unwrap0(elementwise(lambda v: False, (conv(x),), "b"))


def fromiter(it, dtype=None, count=-1):
    r = asarray(it if hasattr(it, "sym_len") or isinstance(it, list) else list(it), dtype)
    if isinstance(count, int) and count == -1:
        return r
    if not dim_eq_branch(r.shape[0], count):
        raise ValueError("iterator too short")
    return r


def reshape(a, shape, **k):
    A.only(k)
    return conv(a).reshape(shape)


def ravel(a):
    return conv(a).reshape(-1)


def transpose(a, axes=None):
    return conv(a).transpose(*( [axes] if axes else []))


def atleast_1d(a):
    a = conv(a)
    return a.reshape(1) if a.ndim == 0 else a


def atleast_2d(a):
    a = conv(a)
    if a.ndim == 0:
        return a.reshape(1, 1)
    if a.ndim == 1:
        return a[None, :]
    return a


def expand_dims(a, axis):
    a = conv(a)
    key = [slice(None)] * a.ndim
    key.insert(axis % (a.ndim + 1), None)
    return a[tuple(key)]


def fill_diagonal(a, val, wrap=False):
    if a.ndim != 2:
        raise Unsupported("fill_diagonal")
    if isinstance(val, SymArray) and val.ndim:
        raise Unsupported("fill_diagonal with array")
    v = unwrap0(val)
    if not a.is_full() or a.ro:
        raise Unsupported("fill_diagonal of view")
    a.buf.write(lambda idx: ieq(idx[0], idx[1]), lambda idx: v)


def trapz(y, x=None, dx=1.0, axis=-1):
    """assumed contract: trapezoidal rule along the axis"""
    y = conv(y)
    if x is not None:
        raise Unsupported("trapz with x")
    axis = axis % y.ndim if y.ndim else 0
    if not y.ndim:
        raise ValueError("diff requires input that is at least one dimensional")
    a = y[tuple(slice(1, None) if k == axis else slice(None) for k in range(y.ndim))]
    b = y[tuple(slice(None, -1) if k == axis else slice(None) for k in range(y.ndim))]
    return np_sum((a + b) * dx * 0.5 if False else A.elementwise(lambda p, q: A.np_div((p + q) * dx, 2), (a, b), "f"), axis=axis)


def diff(a, n=1, axis=-1):
    a = conv(a)
    if n != 1:
        raise Unsupported("diff")
    axis = axis % a.ndim
    hi = a[tuple(slice(1, None) if k == axis else slice(None) for k in range(a.ndim))]
    lo = a[tuple(slice(None, -1) if k == axis else slice(None) for k in range(a.ndim))]
    return hi - lo


def cumsum(a, axis=None):
    raise Unsupported("cumsum")


def _into(out, v):
    """result of a function with out="""
    if out is None:
        return v
    if not isinstance(out, SymArray):
        raise Unsupported("out=")
    out[...] = v
    return out


def clip(a, a_min=None, a_max=None, out=None):
    lo = -math.inf if a_min is None else a_min
    hi = math.inf if a_max is None else a_max

    def f(x, l, h):
        v = ite(tb(x < l), l, x)
        return ite(tb(v > h), h, v)
    return _into(out, unwrap0(elementwise(f, tuple(z if isinstance(z, SymArray) else asarray(z) for z in (a, lo, hi)), "f")))


def minimum(a, b, out=None):
    return _into(out, _binary(lambda x, y: ite(tb(x < y), x, y))(a, b))


def maximum(a, b, out=None):
    return _into(out, _binary(lambda x, y: ite(tb(x > y), x, y))(a, b))


def logical_and(a, b): return _binary(A.np_and, "b")(a, b)
def logical_or(a, b): return _binary(A.np_or, "b")(a, b)
def logical_not(a): return unwrap0(elementwise(lambda x: wrap(z3.simplify(z3.Not(tb(x)))), (conv(a),), "b"))


class _LogicalAnd:
    def __call__(self, a, b):
        return logical_and(a, b)

    def reduce(self, xs, axis=0):
        xs = seq(xs)
        r = xs[0]
        for x in xs[1:]:
            r = logical_and(r, x)
        return r


# -- histogramdd (assumed contract) --------------------------------------------
def edges(n, lo, hi):
    return from_fn((n + 1,), lambda idx: A.to_float(lo + A.np_div(idx[0] * (hi - lo), n)), "f")


def histogramdd(sample, bins=10, range=None, **k):
    """Contract: with numbers of bins and ranges the edges are equidistant; the
    result counts, per bin, the samples x with e_i <= x < e_(i+1) per dimension
    (last bin closed)."""
    if k:
        raise Unsupported("histogramdd options")
    s = conv(sample) if not isinstance(sample, Filtered) else None
    if s is None:
        raise Unsupported("histogramdd of filtered")
    if s.ndim == 1:
        s = s.reshape(-1, 1)
    D = s.shape[1]
    bl = seq(bins)
    if len(bl) != D:
        raise ValueError("The dimension of bins must be equal to the dimension of the sample x.")
    es = []
    for d, b in enumerate(bl):
        if isinstance(b, SymArray) and b.ndim == 1:
            es.append(b)
        elif A.is_int(b):
            if range is None:
                raise Unsupported("histogramdd without range")
            lo, hi = seq(range)[d]
            es.append(edges(b, lo, hi))
        else:
            es.append(conv(b))
    g = s.getter()
    n = s.shape[0]
    egs = [e.getter() for e in es]
    nb = tuple(e.shape[0] - 1 for e in es)

    def cnt(idx):
        def one(m):
            c = []
            for d, (eg, i) in enumerate(zip(egs, idx)):
                x = g((m, d))
                lo, hi = eg((i,)), eg((i + 1,))
                last = ieq(i, nb[d] - 1)
                c.append(tb(x >= lo))
                c.append(z3.Or(tb(x < hi), z3.And(last, tb(x == hi))))
            return SymInt(z3.If(z3.And(*c), z3.IntVal(1), z3.IntVal(0)))
        return A.to_float(A.reduce_sum((n,), lambda mi: one(mi[0])))

    return from_fn(nb, cnt, "f"), list(es)


def histogram(a, bins=10, range=None, **k):
    raise Unsupported("np.histogram")


# -- polynomials (assumed contract) ----------------------------------------------
class Coeffs(SymArray):
    """abstract coefficient array (any degree) of a polynomial in ndim variables"""


CoefS = z3.DeclareSort("Coeffs")


def coeffs_array(term, shape):
    """array whose contents are the abstract coefficient object `term`"""
    nd = len(shape)
    f = z3.Function("coef_at", CoefS, *[IntS] * nd, RealS)
    a = from_fn(shape, lambda idx: wrap(f(term, *[tr(i) for i in idx])), "f")
    a.coef = term
    return a


def _coef(c):
    """abstract coefficient object, or None for explicit coefficients"""
    t = getattr(c, "coef", None)
    if t is not None and c.buf.nwrites == 0:
        return t
    if A.concrete(c.shape):
        return None
    raise Unsupported("polynomial with explicit coefficients of symbolic shape")


def polyder(c, m=1, scl=1, axis=0):
    """contract: coefficients of the derivative along axis (trimmed by one, at least one entry)"""
    if m != 1 or scl != 1:
        raise Unsupported("polyder options")
    c = c if isinstance(c, SymArray) else asarray(c)
    t = _coef(c)
    if not -c.ndim <= axis < c.ndim:
        raise ValueError("axis")
    axis = axis % c.ndim
    sh = list(c.shape)
    if t is None:
        n = sh[axis]
        sh[axis] = max(n - 1, 1)
        g = c.getter()

        def f(idx):
            if n == 1:
                return 0.0
            j = list(idx)
            j[axis] = j[axis] + 1
            return g(tuple(j)) * (idx[axis] + 1)
        return from_fn(tuple(sh), f, "f")
    f = z3.Function("polyder", CoefS, IntS, CoefS)
    sh[axis] = SymInt(z3.If(tr(sh[axis]) > 1, tr(sh[axis]) - 1, 1))
    return coeffs_array(f(t, z3.IntVal(axis)), tuple(sh))


def _polyval(n):
    """contract: sum of c[i,j,..] * x**i * y**j * .."""
    def pv(*a):
        xs, c = a[:-1], a[-1]
        if len(xs) != n:
            raise TypeError(f"polyval{n}d takes {n} coordinates")
        c = c if isinstance(c, SymArray) else asarray(c)
        if c.ndim != n:
            raise Unsupported("polyval dimensions")
        t = _coef(c)
        if t is None:
            r = 0.0
            for i in A.all_idx(c.shape):
                m = c.at(i)
                for x, e in zip(xs, i):
                    for _ in range(e):
                        m = m * x
                r = r + m
            return r
        f = z3.Function(f"polyval{n}", CoefS, *[RealS] * n, RealS)
        return wrap(f(t, *[trr(x) for x in xs]))
    return pv


# -- random numbers -----------------------------------------------------------------
class SymRng:
    """np.random.Generator: a stream that is a function of its seed only"""

    def __init__(self, seed):
        self.seed = seed
        self._birth = CTX.next_serial()
        CTX.rngs.append(self)

    def _log(self, kind, size, val):
        CTX.rng_log.append((self, kind, size, val, list(CTX.loops)))
        CTX.event("rng", self, kind, size, val)
        return val

    def _draw(self, kind, size, sort, facts):
        ks = list(CTX.loops)
        name = CTX.fresh_name("draw_" + kind)
        if size is None:
            f = z3.Function(name, *[IntS] * len(ks), sort) if ks else None
            t = f(*ks) if ks else z3.Const(name, sort)
            facts(t)
            return self._log(kind, None, wrap(t))
        sh = _shape(size)
        nd = len(sh)
        f = z3.Function(name, *[IntS] * (len(ks) + nd), sort)

        def g(idx):
            t = f(*ks, *[tr(i) for i in idx])
            facts(t)
            return wrap(t)
        return self._log(kind, sh, from_fn(sh, g, "i" if sort == IntS else "f"))

    def random(self, size=None, **k):
        A.only(k)
        return self._draw("random", size, RealS, lambda t: CTX.fact(z3.And(t >= 0, t < 1)))

    def standard_normal(self, size=None, **k):
        A.only(k)
        return self._draw("standard_normal", size, RealS, lambda t: None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self._draw("standard_normal", size, RealS, lambda t: None)
        return loc + scale * z

    def uniform(self, low=0.0, high=1.0, size=None):
        """numpy: low + (high - low) * random()"""
        if isinstance(low, (list, tuple, A.SymArray)) or isinstance(high, (list, tuple, A.SymArray)):
            low, high = asarray(low), asarray(high)
            if size is None:
                size = (low + high).shape
        return low + (high - low) * self.random(size)

    def integers(self, low, high=None, size=None, endpoint=False, **k):
        A.only(k)
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        lo, hi = tr(low), tr(high)
        if bool(wrap(z3.simplify(lo >= hi))):
            raise ValueError("low >= high")
        r = self._draw("integers", size, IntS, lambda t: CTX.fact(z3.And(t >= lo, t < hi)))
        CTX.rng_log[-1] += ((low, high),)
        return r

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if p is not None or axis != 0 or (size is not None and not replace):
            raise Unsupported("choice options")
        if A.is_int(a):
            return self.integers(a, size=size)
        n = a.sym_len() if hasattr(a, "sym_len") else len(a)
        i = self.integers(0, n, size)
        CTX.rng_log[-1] += ("choice",)
        if size is not None:
            return asarray(a)[i]
        v = (a.sym_get(i) if hasattr(a, "sym_get") else pick(a, i))
        return asarray(v) if not isinstance(v, (int, float, SymNum)) else v

    def shuffle(self, x, axis=0):
        self._log("shuffle", None, x)
        if isinstance(x, IndexSet):
            x.shuffled = CTX.fresh_name("order")
            return
        if isinstance(x, SymArray) and getattr(x, "index_set", None):
            n, pred, nw = x.index_set
            if nw != x.buf.nwrites:
                raise Unsupported("shuffle of a modified array")
            if isinstance(n, int):
                return self._shuffle_concrete(x)
            if x.axes != [("aff", 0, 0, 1)] and list(x.axes) != [("aff", 0, 0, 1)]:
                raise Unsupported("shuffle of a view")
            x.shuffled = CTX.fresh_name("order")
            pf = z3.Function(x.shuffled, IntS, IntS)

            def perm(idx):
                t = pf(tr(idx[0]))
                CTX.fact(z3.And(t >= 0, t < tr(n)))
                return wrap(t)
            x.buf.write(lambda idx: True, perm)
            x.index_set = (n, pred, x.buf.nwrites)
            return
        if isinstance(x, SymArray) and A.concrete(x.shape) and x.ndim == 1:
            return self._shuffle_concrete(x)
        if isinstance(x, list):
            raise Unsupported("shuffle of list")
        raise Unsupported("shuffle")

    def permutation(self, x):
        if A.is_int(x) and not isinstance(x, int):
            s = IndexSet(x, lambda i: True, CTX.fresh_name("order"))
            self._log("shuffle", None, s)
            return s
        if isinstance(x, IndexSet):
            s = x.copy()
            s.shuffled = CTX.fresh_name("order")
            self._log("shuffle", None, s)
            return s
        raise Unsupported("permutation")

    def _shuffle_concrete(self, x):
        n = x.shape[0]
        vals = [x[i] for i in range(n)]
        perm = []
        rest = list(range(n))
        while rest:
            j = CTX.choose("perm", len(rest))
            perm.append(rest.pop(j))
        for i, p in enumerate(perm):
            x[i] = vals[p]


def pick(lst, i):
    out = None
    for j in range(len(lst) - 1, -1, -1):
        v = lst[j]
        if out is None:
            out = v
        elif isinstance(v, (list, tuple)):
            out = type(v)(ite(ieq(i, j), x, y) for x, y in zip(v, out)) if isinstance(v, tuple) else [ite(ieq(i, j), x, y) for x, y in zip(v, out)]
        else:
            out = ite(ieq(i, j), v, out)
    return out


class BitGen:
    """PCG64(seed), SeedSequence(seed): what default_rng makes of the seed itself"""

    def __init__(self, seed=None):
        self.seed = seed.seed if isinstance(seed, BitGen) else seed


class _GeneratorType(type):
    def __call__(cls, bit):
        if not isinstance(bit, BitGen):
            raise Unsupported("bit generator")
        return default_rng(bit.seed)

    def __instancecheck__(cls, o):
        return isinstance(o, SymRng)


class Generator(metaclass=_GeneratorType):
    pass


class _RandomModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("numpy.random." + name)


def default_rng(seed=None):
    if isinstance(seed, BitGen):
        seed = seed.seed
    CTX.event("default_rng", seed)
    return SymRng(seed)


def _global_random(name):
    def f(*a, **k):
        CTX.event("global_random", name)
        r = SymRng(("global", name))
        m = {"rand": "random", "randn": "standard_normal", "normal": "normal", "uniform": "uniform", "random": "random",
             "randint": "integers", "standard_normal": "standard_normal", "shuffle": "shuffle", "choice": "choice"}[name]
        return getattr(r, m)(*a, **k)
    return f


def nondeterministic(name, sort=RealS):
    """a value that is not a function of the input (clock, process, ...)"""
    def f(*a, **k):
        CTX.event("nondeterministic", name)
        return wrap(z3.Const(CTX.fresh_name("nondeterministic_" + name), sort))
    return f


def stdlib_random():
    """module random: a generator shared by the whole process"""
    m = types.ModuleType("random")
    for n, g in (("random", "random"), ("uniform", "uniform"), ("gauss", "normal"), ("normalvariate", "normal"), ("shuffle", "shuffle"), ("choice", "choice")):
        def f(*a, _g=g, **k):
            CTX.event("global_random", _g)
            return getattr(SymRng(("global", "random")), _g)(*a, **k)
        setattr(m, n, f)

    def randint(a, b):
        CTX.event("global_random", "randint")
        return SymRng(("global", "random")).integers(a, b + 1)

    def randrange(a, b=None):
        CTX.event("global_random", "randrange")
        return SymRng(("global", "random")).integers(a, b)
    m.randint, m.randrange = randint, randrange

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"random.{name}")
    m.__getattr__ = missing
    return m


def stdlib_time():
    m = types.ModuleType("time")
    for n in ("time", "perf_counter", "monotonic", "process_time"):
        setattr(m, n, nondeterministic(n))
    for n in ("time_ns", "perf_counter_ns", "monotonic_ns"):
        setattr(m, n, nondeterministic(n, IntS))

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"time.{name}")
    m.__getattr__ = missing
    return m


# -- files -------------------------------------------------------------------------
class SymFile:
    def __init__(self, name, mode):
        self.name, self.mode = name, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, s):
        CTX.event("write", self.name, self.mode, s)

    def close(self):
        pass

    def flush(self):
        pass


def open_(name, mode="r", *a, **k):
    if "r" in mode:
        h = CTX.ghost.get("open_read")
        if h:
            return h(name)
        CTX.event("open", name, mode)
        return SymFile(name, mode)
    if "w" in mode:
        CTX.event("truncate", name)
    return SymFile(name, mode)


def savetxt(f, data, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", **k):
    a = conv(data)
    a = a.copy() if isinstance(a, SymArray) else a
    name = f.name if isinstance(f, SymFile) else f
    mode = f.mode if isinstance(f, SymFile) else "w"
    CTX.event("savetxt", name, mode, a, {"fmt": fmt, "delimiter": delimiter, "newline": newline, "header": header, "comments": comments})


def genfromtxt(name, **k):
    h = CTX.ghost.get("genfromtxt")
    if not h or k:
        raise Unsupported("genfromtxt")
    CTX.event("genfromtxt", name)
    return h(name)


# ---------------------------------------------------------------------------------
def make_numpy():
    m = types.ModuleType("numpy")
    g = globals()
    names = ("exp log sqrt floor ceil square sign array full zeros ones empty zeros_like ones_like empty_like full_like arange "
             "linspace meshgrid stack concatenate c_ column_stack vstack hstack append where nonzero flatnonzero count_nonzero "
             "array_equal isinf isfinite isnan fromiter reshape ravel transpose atleast_1d atleast_2d expand_dims fill_diagonal "
             "trapz diff clip minimum maximum histogramdd histogram savetxt genfromtxt errstate logical_or logical_not argwhere "
             "cumsum argmax argmin expm1 log1p reciprocal less less_equal greater greater_equal isclose allclose").split()
    for n in names:
        setattr(m, n, g[n])
    m.logical_and = _LogicalAnd()
    m.loadtxt = genfromtxt
    m.asarray = asarray_nocopy
    m.abs = m.absolute = m.fabs = abs_
    m.sum, m.mean, m.prod, m.min, m.max, m.any, m.all = np_sum, np_mean, np_prod, np_min, np_max, np_any, np_all
    m.average = np_mean
    m.amin, m.amax = np_min, np_max
    m.nanmin = np_min
    m.add = _binary(lambda a, b: a + b)
    m.multiply = _binary(lambda a, b: a * b)
    m.subtract = _binary(lambda a, b: a - b)
    m.divide = m.true_divide = _binary(A.np_div, "f")
    m.power = _binary(core.sym_pow)
    m.negative = _unary(lambda x: -x)
    m.mod = m.remainder = _binary(A.np_mod)
    m.floor_divide = _binary(A.np_floordiv)
    m.fmod = _binary(_fmod, "f")
    m.trunc = m.fix = _unary(_truncf)
    m.positive = _unary(lambda x: x)
    m.dot = lambda a, b: A.dot(conv(a), conv(b))
    m.copy = lambda a: conv(a).copy()
    m.ndarray = SymArray
    m.pi = SymReal(core.PI)
    m.inf = float("inf")
    m.nan = float("nan")
    m.newaxis = None
    m.ndim = lambda a: conv(a).ndim
    m.shape = lambda a: conv(a).shape
    m.size = lambda a: conv(a).size
    m.Inf = m.inf

    class _T(type):
        pass

    for n in ("float64", "float32", "double", "int64", "int32", "bool_", "floating", "integer"):
        setattr(m, n, _T(n, (), {}))
    m.float_ = m.float64
    r = _RandomModule("numpy.random")
    r.default_rng = default_rng
    r.Generator = Generator
    r.PCG64 = r.SeedSequence = BitGen
    for n in ("rand", "randn", "normal", "uniform", "random", "randint", "standard_normal", "shuffle", "choice"):
        setattr(r, n, _global_random(n))
    m.random = r
    p = types.ModuleType("numpy.polynomial")
    pp = types.ModuleType("numpy.polynomial.polynomial")
    pp.polyder = polyder
    pp.polyval, pp.polyval2d, pp.polyval3d = _polyval(1), _polyval(2), _polyval(3)
    p.polynomial = pp
    m.polynomial = p

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"numpy.{name}")
    m.__getattr__ = missing
    mods = {"numpy": m, "numpy.random": r, "numpy.polynomial": p, "numpy.polynomial.polynomial": pp}
    # scipy
    sc = types.ModuleType("scipy")
    sig = types.ModuleType("scipy.signal")
    itp = types.ModuleType("scipy.interpolate")
    spa = types.ModuleType("scipy.spatial")
    dis = types.ModuleType("scipy.spatial.distance")
    sig.convolve = convolve
    itp.griddata = griddata
    dis.pdist, dis.squareform, dis.cdist = pdist, squareform, cdist
    sc.signal, sc.interpolate, sc.spatial, spa.distance = sig, itp, spa, dis
    for q, nm in ((sc, "scipy"), (sig, "scipy.signal"), (itp, "scipy.interpolate"), (spa, "scipy.spatial"), (dis, "scipy.spatial.distance")):
        q.__getattr__ = (lambda nm: lambda name: (_ for _ in ()).throw(AttributeError(name) if name.startswith("__") else Unsupported(f"{nm}.{name}")))(nm)
        mods[nm] = q
    return mods


# -- scipy contracts --------------------------------------------------------------
def pdist(x, metric="euclidean", **k):
    if k:
        raise Unsupported("pdist options")
    """contract: condensed matrix of pairwise distances"""
    x = conv(x)
    if x.ndim != 2:
        raise ValueError("A 2-dimensional array must be passed.")
    n, d = x.shape
    if not isinstance(d, int):
        raise Unsupported("pdist dimensions")
    g = x.getter()
    if metric not in ("sqeuclidean", "euclidean"):
        raise Unsupported("pdist metric")

    def dist(i, j):
        s = 0
        for c in range(d):
            t = g((i, c)) - g((j, c))
            s = s + t * t
        return core.sym_sqrt(s) if metric == "euclidean" else s

    fi = z3.Function("cond_i", IntS, IntS, IntS)
    fj = z3.Function("cond_j", IntS, IntS, IntS)
    m = core.py_divmod(n * (n - 1), 2)[0] if not isinstance(n, int) else n * (n - 1) // 2

    def f(idx):
        i = idx[0]
        if isinstance(i, PairIdx):
            return dist(i.i, i.j)
        return dist(wrap(fi(tr(n), tr(i))), wrap(fj(tr(n), tr(i))))

    buf = Buf.__new__(Buf)
    buf.shape, buf.dtype, buf._birth, buf.owner, buf.nwrites, buf.cells, buf.fn = (m,), "f", CTX.next_serial(), None, 0, None, f
    return SymArray(buf)


class PairIdx(SymInt):
    """index of the pair (i, j) in a condensed matrix"""

    __slots__ = ("i", "j")


_pairf = z3.Function("condensed", IntS, IntS, IntS, IntS)


def pair_idx(n, i, j):
    lo = ite(z3.simplify(tr(i) < tr(j)), i, j)
    hi = ite(z3.simplify(tr(i) < tr(j)), j, i)
    p = PairIdx(_pairf(tr(n), tr(lo), tr(hi)))
    p.i, p.j = i, j
    return p


def squareform(v, force="no", checks=True):
    if force != "no":
        raise Unsupported("squareform options")
    """contract: symmetric matrix with zero diagonal from condensed form"""
    v = conv(v)
    if v.ndim != 1:
        raise Unsupported("squareform of matrix")
    g = v.getter()
    m = v.shape[0]
    n = CTX.ghost.get("condensed_n", {}).get(None)
    # the number of points is the one whose n*(n-1)/2 equals the length
    n = None
    for cand in CTX.condensed:
        if same(cand[1], m):
            n = cand[0]
    if n is None:
        raise Unsupported("squareform of unknown size")

    def f(idx):
        i, j = idx
        c = ieq(i, j)
        if z3.is_true(c):
            return 0.0
        val = g((pair_idx(n, i, j),))
        return val if z3.is_false(c) else ite(c, 0.0, val)
    return from_fn((n, n), f, "f")


_pdist0 = pdist


def pdist(x, metric="euclidean", **k):  # noqa: F811
    r = _pdist0(x, metric, **k)
    CTX.condensed.append((conv(x).shape[0], r.shape[0]))
    return r


def cdist(x, y, metric="euclidean", **k):
    if k:
        raise Unsupported("cdist options")
    x, y = conv(x), conv(y)
    gx, gy = x.getter(), y.getter()
    d = x.shape[1]
    if metric not in ("sqeuclidean", "euclidean"):
        raise Unsupported("cdist metric")

    def f(idx):
        s = 0
        for c in range(d):
            t = gx((idx[0], c)) - gy((idx[1], c))
            s = s + t * t
        return core.sym_sqrt(s) if metric == "euclidean" else s
    return from_fn((x.shape[0], y.shape[0]), f, "f")


def convolve(a, b, mode="full", method="auto"):
    """contract: discrete convolution; abstract result, linked to its operands"""
    a, b = conv(a), conv(b)
    rec = {"a": a.copy(), "b": b.copy(), "mode": mode, "method": method}
    if mode == "same":
        sh = a.shape
    elif mode == "valid":
        sh = tuple(dim_size(x) - dim_size(y) + 1 for x, y in zip(a.shape, b.shape))
    else:
        sh = tuple(dim_size(x) + dim_size(y) - 1 for x, y in zip(a.shape, b.shape))
    name = CTX.fresh_name("convolved")
    nd = len(sh)
    f = z3.Function(name, *[IntS] * nd, RealS)

    def g(idx):
        t = f(*[tr(i) for i in idx])
        if rec.get("positive"):
            CTX.fact(t > 0)
        return wrap(t)
    r = from_fn(sh, g, "f")
    rec["result"] = r.copy()
    rec["fn"] = g
    CTX.ghost.setdefault("convolve", []).append(rec)
    CTX.event("convolve", rec)
    return r


def griddata(points, values, xi, method="linear", fill_value=float("nan"), **k):
    """contract: interpolation of (points, values) at xi; abstract result"""
    if k:
        raise Unsupported("griddata options")
    pts, vals = conv(points), conv(values)
    x = conv(xi)
    rec = {"points": pts.copy(), "values": vals.copy(), "xi": x.copy(), "method": method, "fill": fill_value}
    lst = CTX.ghost.setdefault("griddata", [])
    name = CTX.fresh_name("interp")
    lst.append(rec)
    f = None
    # an (m,1) request gives (m,1) results, an (m,d>1) request gives (m,)
    if x.ndim == 2 and isinstance(x.shape[1], int) and x.shape[1] == 1:
        sh = x.shape
    elif x.ndim == 2:
        sh = (x.shape[0],)
    else:
        sh = x.shape
    nd = len(A.flat_dims(sh[:1]))
    f = z3.Function(name, *[IntS] * nd, RealS)

    def g(idx):
        i = idx[0]
        ii = list(i) if isinstance(i, tuple) else [i]
        return wrap(f(*[tr(q) for q in ii]))
    rec["fn"] = g
    CTX.event("griddata", rec)
    return from_fn(sh, g, "f")


def _argbest(a, sign):
    """index of the first extreme element"""
    a = conv(a)
    if not isinstance(a, SymArray) or not A.concrete(a.shape):
        raise Unsupported("argmax / argmin over a symbolic number of elements")
    vals = [a.at(i) for i in A.all_idx(a.shape)]
    if not vals:
        raise ValueError("attempt to get argmax of an empty sequence")
    best, bi = vals[0], 0
    for i, v in enumerate(vals[1:], 1):
        better = (v > best) if sign > 0 else (v < best)
        if isinstance(better, bool):
            best, bi = (v, i) if better else (best, bi)
        else:
            best, bi = A.ite(tb(better), v, best), A.ite(tb(better), i, bi)
    return bi


def argmax(a, axis=None):
    if axis is not None:
        raise Unsupported("argmax axis")
    return _argbest(a, 1)


def argmin(a, axis=None):
    if axis is not None:
        raise Unsupported("argmin axis")
    return _argbest(a, -1)
