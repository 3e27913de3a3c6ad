"""Symbolic numpy arrays: shapes may contain symbolic dimensions.

Element functions are immutable closures, so results of operations never see
later writes to their operands (numpy computes eagerly); basic indexing gives
views that share the buffer (writes go through), everything else copies.
"""
import operator
from fractions import Fraction

import z3

from . import core
from .core import (CTX, Ext, SymBool, SymInt, SymNum, SymReal, Unsupported, IntS, RealS, BoolS, eq, generic_eval, ite,
                   merge, tb, tr, trr, wrap)

MAXCELLS = 48


class Prod(tuple):
    """flattened dimensions (row-major)"""

    def __mul__(self, o): return dim_size(self) * dim_size(o)
    def __rmul__(self, o): return dim_size(o) * dim_size(self)
    def __add__(self, o): return dim_size(self) + dim_size(o)
    def __radd__(self, o): return dim_size(o) + dim_size(self)
    def __sub__(self, o): return dim_size(self) - dim_size(o)
    def __rsub__(self, o): return dim_size(o) - dim_size(self)
    def __truediv__(self, o): return dim_size(self) / dim_size(o)
    def __rtruediv__(self, o): return dim_size(o) / dim_size(self)
    def __floordiv__(self, o): return dim_size(self) // dim_size(o)
    def __mod__(self, o): return dim_size(self) % dim_size(o)


class FlatInt(core.SymInt):
    """size of a flattened dimension"""
    __slots__ = ("dims",)


def flat_len(d):
    if isinstance(d, Prod):
        n = dim_size(d)
        if isinstance(n, core.SymInt):
            r = FlatInt(n.e)
            r.dims = d
            return r
        return n
    return d


def is_int(x):
    return isinstance(x, (int, SymInt)) and not isinstance(x, bool)


def dim_size(d):
    if isinstance(d, Prod):
        r = 1
        for x in d:
            r = r * dim_size(x)
        return r
    return d


def shape_size(shape):
    r = 1
    for d in shape:
        r = r * dim_size(d)
    return r


def same(a, b):
    """provably equal integers"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Prod) or isinstance(b, Prod):
        if isinstance(a, Prod) and isinstance(b, Prod) and len(a) == len(b):
            return all(same(x, y) for x, y in zip(a, b))
        return False
    from . import nf

    x, y = tr(a), tr(b)
    if x.eq(y) or nf.key(CTX, x) == nf.key(CTX, y):
        return True
    if core.num_const(x) is not None and core.num_const(y) is not None:
        return False
    return CTX.known(x == y)


def dim_eq_branch(a, b):
    """are the two dimensions equal (branching if undecided)?"""
    if isinstance(a, Prod) or isinstance(b, Prod):
        if same(a, b):
            return True
        return dim_eq_branch(dim_size(a), dim_size(b))
    if same(a, b):
        return True
    return bool(wrap(z3.simplify(tr(a) == tr(b))))


def concrete(shape):
    return all(isinstance(d, int) for d in shape)


def all_idx(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in all_idx(shape[1:]):
            yield (i,) + r


def flat_of(idx, dims):
    """row-major flat index of composite index"""
    r = 0
    for i, d in zip(idx, dims):
        if isinstance(d, Prod):
            i = flat_of(i, d)
        r = r * dim_size(d) + i
    return r


def unflat(m, dims):
    """composite index from flat index"""
    out = []
    for d in reversed(dims):
        s = dim_size(d)
        if d is dims[0] and len(out) == len(dims) - 1:
            i = m
        else:
            if isinstance(m, int) and isinstance(s, int):
                m, i = divmod(m, s)
            else:
                q, r = core.py_divmod(m, s)
                m, i = q, r
        if isinstance(d, Prod):
            i = unflat(i, d)
        out.append(i)
    return tuple(reversed(out))


def ieq(a, b):
    """index equality as z3 bool"""
    if isinstance(a, tuple):
        return z3.And(*[ieq(x, y) for x, y in zip(a, b)])
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    return z3.simplify(tr(a) == tr(b))


class Buf:
    _is_buf = True

    def __init__(self, shape, fn=None, cells=None, dtype="f"):
        self.shape = tuple(shape)
        self.dtype = dtype
        self._birth = CTX.next_serial()
        self.owner = None
        self.nwrites = 0
        if cells is None and concrete(self.shape) and shape_size(self.shape) <= MAXCELLS:
            cells = {i: fn(i) for i in all_idx(self.shape)}
            fn = None
        self.cells = cells
        self.fn = fn

    def getter(self):
        """immutable snapshot of the contents"""
        if self.cells is not None:
            cells = dict(self.cells)
            return lambda idx: cell_get(cells, idx)
        return self.fn

    def get(self, idx):
        if self.cells is not None:
            return cell_get(self.cells, idx)
        return self.fn(idx)

    def state(self):
        return (self.cells, self.fn)

    def set_state(self, st):
        self.cells, self.fn = st

    def hold(self, st):
        """set_state by a contract that fills the array with arbitrary reals"""
        if self.dtype != "f":
            raise Unsupported("a state array that does not hold floats")
        self.set_state(st)

    def write(self, cond, val):
        """for all idx with cond(idx): self[idx] = val(idx)"""
        old = self.state()
        CTX.note(self, ("w", cond), lambda: self.set_state(old))
        self.nwrites += 1
        if self.dtype in ("i", "b"):
            val = (lambda v, d: lambda idx: store_as(d, v(idx)))(val, self.dtype)
        if self.cells is not None:
            new = {}
            for i, v in self.cells.items():
                c = cond(i)
                if c is True or (not isinstance(c, bool) and z3.is_true(c)):
                    new[i] = val(i)
                elif c is False or z3.is_false(c):
                    new[i] = v
                else:
                    new[i] = ite(c, val(i), v)
            self.cells = new
        else:
            f0 = self.fn

            def fn(idx):
                c = cond(idx)
                if c is True or (not isinstance(c, bool) and z3.is_true(c)):
                    return val(idx)
                if c is False or z3.is_false(c):
                    return f0(idx)
                return ite(c, val(idx), f0(idx))

            self.fn = fn


def store_as(d, v):
    """the value numpy stores when v is written to a cell of an integer or boolean array"""
    if isinstance(v, (bool, SymBool)):
        return v if d == "b" else (v.int() if isinstance(v, SymBool) else int(v))
    if d == "b":
        return wrap(z3.simplify(tr(v) != 0))
    if isinstance(v, (int, SymInt)):
        return v
    if isinstance(v, (float, Fraction, SymNum)):
        return core.sym_trunc(v)
    raise Unsupported("assignment to an integer array")


def cell_get(cells, idx):
    if idx in cells if all(isinstance(i, int) for i in idx) else False:
        return cells[idx]
    if all(isinstance(i, int) for i in idx):
        raise IndexError("index out of bounds")
    out = None
    for i, v in cells.items():
        c = z3.And(*[ieq(a, b) for a, b in zip(i, idx)])
        if z3.is_false(z3.simplify(c)):
            continue
        out = v if out is None else ite(c, v, out)
    if out is None:
        raise IndexError("index out of bounds")
    return out


def norm_index(i, n):
    """python index semantics; raises IndexError when out of range"""
    if isinstance(i, SymBool):
        raise Unsupported("boolean index")
    n = dim_size(n)
    if isinstance(i, int) and isinstance(n, int):
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError(f"index {i} is out of bounds for axis with size {n}")
        return i
    if i < 0:
        i = i + n
        if i < 0:
            raise IndexError("index out of bounds")
        return i
    if i >= n:
        raise IndexError("index out of bounds")
    return i


def smin(a, b):
    return a if bool(a <= b) else b


def norm_slice(s, n):
    """(start, length, step) of a slice of a dimension of size n, step > 0"""
    n = dim_size(n)
    step = 1 if s.step is None else s.step
    if isinstance(step, int):
        if step == 0:
            raise ValueError("slice step cannot be zero")
        if step < 0:
            if step == -1 and s.start is None and s.stop is None:
                return n - 1, n, -1
            raise Unsupported("negative slice step")
    else:
        if step == 0:
            raise ValueError("slice step cannot be zero")
        if step < 0:
            raise Unsupported("negative slice step")
    start = 0 if s.start is None else s.start
    stop = n if s.stop is None else s.stop
    if s.start is not None:
        if start < 0:
            start = start + n
            if start < 0:
                start = 0
        elif start > n:
            start = n
    if s.stop is not None:
        if stop < 0:
            stop = stop + n
            if stop < 0:
                stop = 0
        elif stop > n:
            stop = n
    if isinstance(start, int) and start == 0 and s.stop is None and isinstance(step, int) and step == 1:
        return 0, n, 1
    if stop <= start:
        return start, 0, step
    ln = stop - start
    if not (isinstance(step, int) and step == 1):
        ln = core.py_divmod(ln + (step - 1), step)[0]
    return start, ln, step


class SymArray:
    _is_symarray = True
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, buf, axes=None, shape=None):
        self.buf = buf
        if axes is None:
            axes = [("aff", k, 0, 1) for k in range(len(buf.shape))]
            shape = buf.shape
        self.axes = axes
        self.shape = tuple(shape)
        self.ro = False  # reshaped copy: writing would have to go through

    # -- basics ----------------------------------------------------------------
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def size(self):
        return flat_len(self.shape[0]) if len(self.shape) == 1 else shape_size(self.shape)

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        n = self.ndim
        perm = list(axes[0] if axes and isinstance(axes[0], (tuple, list)) else axes) or list(reversed(range(n)))
        inv_ = {old: new for new, old in enumerate(perm)}
        ax = [a if a[0] == "fix" else ("aff", inv_[a[1]]) + a[2:] for a in self.axes]
        return SymArray(self.buf, ax, [self.shape[p] for p in perm])

    def _map(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                _, k, start, step = a
                i = idx[k]
                if isinstance(start, int) and start == 0 and isinstance(step, int) and step == 1:
                    out.append(i)
                else:
                    out.append(start + step * i)
        return tuple(out)

    def at(self, idx):
        return self.buf.get(self._map(tuple(idx)))

    def getter(self):
        g = self.buf.getter()
        m = self._map
        return lambda idx: g(m(tuple(idx)))

    def is_full(self):
        return all(a == ("aff", k, 0, 1) for k, a in enumerate(self.axes)) and len(self.axes) == len(self.shape)

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        n = dim_size(self.shape[0])
        if isinstance(n, int):
            return n
        raise Unsupported("len() of symbolic array outside the shim")

    def sym_len(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return flat_len(self.shape[0])

    def sym_get(self, i):
        return self[i]

    def __iter__(self):
        if not self.shape:
            raise TypeError("iteration over a 0-d array")
        n = dim_size(self.shape[0])
        if not isinstance(n, int):
            raise Unsupported("native iteration over symbolic array")
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if self.size == 1:
            return bool(self.at(tuple(0 for _ in self.shape)))
        if isinstance(self.size, int):
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        raise Unsupported("truth value of symbolic array")

    # -- indexing ---------------------------------------------------------------
    def _view(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if Ellipsis in [k for k in key if k is Ellipsis]:
            pos = [j for j, k in enumerate(key) if k is Ellipsis][0]
            n_used = len([k for k in key if k is not None and k is not Ellipsis])
            key = key[:pos] + (slice(None),) * (self.ndim - n_used) + key[pos + 1:]
        new_shape = []
        amap = {}  # old view axis -> ('fix', i) | ('aff', newaxis, start, step)
        ax = 0
        for k in key:
            if k is None:
                new_shape.append(1)
                continue
            if ax >= self.ndim:
                raise IndexError("too many indices for array")
            d = self.shape[ax]
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    amap[ax] = ("aff", len(new_shape), 0, 1)
                    new_shape.append(d)
                else:
                    if isinstance(d, Prod):
                        raise Unsupported("slice of flattened dimension")
                    st, ln, sp = norm_slice(k, d)
                    amap[ax] = ("aff", len(new_shape), st, sp)
                    new_shape.append(ln)
            elif is_int(k):
                i = norm_index(k, d)
                if isinstance(d, Prod):
                    i = unflat(i, d)
                amap[ax] = ("fix", i)
            elif isinstance(k, (bool, SymBool)):
                raise Unsupported("boolean scalar index")
            elif isinstance(k, SymReal) or isinstance(k, float):
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            else:
                raise Unsupported(f"index of type {type(k).__name__}")
            ax += 1
        while ax < self.ndim:
            amap[ax] = ("aff", len(new_shape), 0, 1)
            new_shape.append(self.shape[ax])
            ax += 1
        axes = []
        for a in self.axes:
            if a[0] == "fix":
                axes.append(a)
                continue
            _, k, start, step = a
            b = amap[k]
            triv = isinstance(start, int) and start == 0 and isinstance(step, int) and step == 1
            if b[0] == "fix":
                axes.append(("fix", b[1] if triv else start + step * b[1]))
            else:
                _, nk, s2, t2 = b
                if triv:
                    axes.append(("aff", nk, s2, t2))
                else:
                    axes.append(("aff", nk, start + step * s2, step * t2))
        v = SymArray(self.buf, axes, new_shape)
        v.ro = self.ro
        return v

    def __getitem__(self, key):
        if isinstance(key, SymArray) and key.dtype == "b":
            return self._mask(key)
        if isinstance(key, (list,)) and key and all(is_int(k) for k in key):
            return from_fn((len(key),) + self.shape[1:], _take(self, list(key)), self.dtype)
        if isinstance(key, SymArray) and key.dtype == "i":
            g, kg = self.getter(), key.getter()
            n0 = self.shape[0]
            kd = key.ndim

            def f(idx):
                return g((norm_index(kg(idx[:kd]), n0),) + tuple(idx[kd:]))
            return from_fn(key.shape + self.shape[1:], f, self.dtype)
        if isinstance(key, tuple) and any(isinstance(k, (SymArray, list)) for k in key):
            raise Unsupported("advanced indexing")
        v = self._view(key)
        if not v.shape:
            return v.at(())
        return v

    def _mask(self, m):
        if len(m.shape) == 1 and len(self.shape) > 1 and concrete(self.shape[1:]):
            if not dim_eq_branch(m.shape[0], self.shape[0]):
                raise IndexError("boolean index did not match indexed array")
            g, row = self.getter(), tuple(self.shape[1:])
            return Filtered(self.shape[:1], lambda i: from_fn(row, lambda j: g(tuple(i) + tuple(j)), self.dtype), m.getter(), row)
        if len(m.shape) != len(self.shape) or not all(dim_eq_branch(a, b) for a, b in zip(m.shape, self.shape)):
            raise IndexError("boolean index did not match indexed array")
        return Filtered(self.shape, self.getter(), m.getter())

    def __setitem__(self, key, val):
        if self.ro:
            raise Unsupported("write through a reshaped view")
        if isinstance(key, SymArray) and key.dtype == "b":
            m = key.getter()
            if isinstance(val, SymArray) and not val.shape:
                val = val.at(())
            if isinstance(val, SymArray):
                raise Unsupported("masked assignment of array")
            if not self.is_full():
                raise Unsupported("masked assignment to view")
            if len(key.shape) != len(self.shape):
                raise Unsupported("masked assignment")
            if isinstance(val, Filtered):
                if not same_mask(self.shape, m, val):
                    raise Unsupported("masked assignment of another selection")
                self.buf.write(lambda idx: tb(m(idx)), val.get)
            else:
                self.buf.write(lambda idx: tb(m(idx)), lambda idx: val)
            return
        v = self._view(key)
        val = asarray(val) if not isinstance(val, SymArray) else val
        vg = bcast_getter(val, v.shape)
        axes = v.axes
        shape = v.shape

        def cond(bidx):
            cs = []
            for a, j in zip(axes, bidx):
                if a[0] == "fix":
                    cs.append(ieq(a[1], j))
                else:
                    _, k, st, sp = a
                    if isinstance(st, int) and st == 0 and isinstance(sp, int) and sp == 1 and same_dim_full(k, shape, a, j):
                        n = shape[k]
                        if not isinstance(n, Prod) and not v_full[k]:
                            cs.append(tb(_lt(j, n)))
                        continue
                    n = dim_size(shape[k])
                    if isinstance(sp, int) and sp == 1:
                        cs.append(tb(_ge(j, st)))
                        cs.append(tb(_lt(j, st + n)))
                    else:
                        raise Unsupported("strided assignment")
            if not cs:
                return True
            return z3.simplify(z3.And(*cs))

        v_full = {}
        for b, a in enumerate(axes):
            if a[0] == "aff":
                v_full[a[1]] = same(shape[a[1]], self.buf.shape[b])

        def value(bidx):
            vi = [0] * len(shape)
            for a, j in zip(axes, bidx):
                if a[0] == "aff":
                    _, k, st, sp = a
                    vi[k] = j if (isinstance(st, int) and st == 0) else j - st
            return vg(tuple(vi))

        self.buf.write(cond, value)

    # -- elementwise ---------------------------------------------------------------
    def _binop(self, o, f, dt=None, swap=False):
        if isinstance(o, Filtered):
            return NotImplemented
        if not isinstance(o, SymArray):
            if isinstance(o, (list, tuple)) or hasattr(o, "sym_len"):
                o = asarray(o)
            elif not (isinstance(o, (int, float, Fraction, SymNum, SymBool, Ext))):
                return NotImplemented
            else:
                o = scalar(o)
        a, b = (o, self) if swap else (self, o)
        return elementwise(f, (a, b), dt)

    def __add__(self, o): return self._binop(o, operator.add)
    def __radd__(self, o): return self._binop(o, operator.add, swap=True)
    def __sub__(self, o): return self._binop(o, operator.sub)
    def __rsub__(self, o): return self._binop(o, operator.sub, swap=True)
    def __mul__(self, o): return self._binop(o, operator.mul)
    def __rmul__(self, o): return self._binop(o, operator.mul, swap=True)
    def __truediv__(self, o): return self._binop(o, np_div, "f")
    def __rtruediv__(self, o): return self._binop(o, np_div, "f", swap=True)
    def __pow__(self, o): return self._binop(o, core.sym_pow)
    def __rpow__(self, o): return self._binop(o, core.sym_pow, swap=True)
    def __floordiv__(self, o): return self._binop(o, np_floordiv)
    def __rfloordiv__(self, o): return self._binop(o, np_floordiv, swap=True)
    def __mod__(self, o): return self._binop(o, np_mod)
    def __rmod__(self, o): return self._binop(o, np_mod, swap=True)
    def __lt__(self, o): return self._binop(o, operator.lt, "b")
    def __le__(self, o): return self._binop(o, operator.le, "b")
    def __gt__(self, o): return self._binop(o, operator.gt, "b")
    def __ge__(self, o): return self._binop(o, operator.ge, "b")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._binop(o, np_eq, "b")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._binop(o, np_ne, "b")

    def __and__(self, o): return self._binop(o, np_and, "b")
    __rand__ = __and__
    def __or__(self, o): return self._binop(o, np_or, "b")
    __ror__ = __or__
    def __xor__(self, o): return self._binop(o, lambda a, b: wrap(z3.Xor(tb(a), tb(b))), "b")
    __rxor__ = __xor__
    def __invert__(self): return elementwise(lambda a: wrap(z3.simplify(z3.Not(tb(a)))), (self,), "b")
    def __neg__(self): return elementwise(operator.neg, (self,))
    def __pos__(self): return elementwise(operator.pos, (self,))
    def __abs__(self): return elementwise(sabs, (self,))

    def _inplace(self, o, f):
        r = f(self, o)
        if r is NotImplemented:
            return r
        if len(r.shape) != len(self.shape) or not all(dim_eq_branch(a, b) for a, b in zip(r.shape, self.shape)):
            raise ValueError("non-broadcastable output operand")
        if self.dtype == "i" and r.dtype == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        self[(slice(None),) * self.ndim] = r
        return self

    def __iadd__(self, o): return self._inplace(o, operator.add)
    def __isub__(self, o): return self._inplace(o, operator.sub)
    def __imul__(self, o): return self._inplace(o, operator.mul)
    def __itruediv__(self, o): return self._inplace(o, operator.truediv)
    def __ipow__(self, o): return self._inplace(o, operator.pow)
    def __imod__(self, o): return self._inplace(o, operator.mod)
    def __iand__(self, o): return self._inplace(o, operator.and_)
    def __ior__(self, o): return self._inplace(o, operator.or_)
    def __matmul__(self, o): return dot(self, asarray(o))

    # -- methods ------------------------------------------------------------------
    def copy(self, order="C"):
        return from_fn(self.shape, self.getter(), self.dtype)

    def __copy__(self):
        return self.copy()

    def astype(self, t, copy=True, **k):
        only(k)
        n = dtype_name(t)
        if not copy and same_dtype(self.dtype, t):
            return self
        if n.startswith("int"):
            return elementwise(lambda x: core.sym_trunc(x) if not isinstance(x, (bool, SymBool)) else (x.int() if isinstance(x, SymBool) else int(x)), (self,), "i")
        if n.startswith("float") or n == "double":
            return elementwise(lambda x: to_float(x), (self,), "f")
        if n.startswith("bool"):
            return elementwise(lambda x: wrap(z3.simplify(tb(x))), (self,), "b")
        raise Unsupported(f"astype {n}")

    def fill(self, v):
        self[(slice(None),) * self.ndim] = v

    def tolist(self):
        if self.ndim == 1 and concrete(self.shape):
            return [self[i] for i in range(self.shape[0])]
        if concrete(self.shape):
            return [self[i].tolist() for i in range(self.shape[0])]
        raise Unsupported("tolist")

    def item(self, *a):
        return self.at(tuple(0 for _ in self.shape))

    def flatten(self, *a):
        return self.reshape(-1).copy()

    def ravel(self, *a):
        return self.reshape(-1)

    def squeeze(self, axis=None):
        key = tuple(0 if isinstance(d, int) and d == 1 and (axis is None or k == axis) else slice(None) for k, d in enumerate(self.shape))
        return self[key]

    def reshape(self, *shape, order="C"):
        if order != "C":
            raise Unsupported("reshape order")
        if len(shape) == 1 and (isinstance(shape[0], (list, tuple)) and not isinstance(shape[0], Prod) or isinstance(shape[0], SymArray)):
            shape = tuple(shape[0])
        shape = tuple(shape)
        return reshape(self, shape)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def sum(self, axis=None, **k): return np_sum(self, axis, **k)
    def mean(self, axis=None, **k): return np_mean(self, axis, **k)
    def prod(self, axis=None, **k): return np_prod(self, axis, **k)
    def min(self, axis=None, **k): return np_min(self, axis, **k)
    def max(self, axis=None, **k): return np_max(self, axis, **k)
    def any(self, axis=None, **k): return np_any(self, axis, **k)
    def all(self, axis=None, **k): return np_all(self, axis, **k)
    def dot(self, o): return dot(self, asarray(o))

    def __repr__(self):
        return f"<array {self.shape}>"

    def __format__(self, spec):
        return repr(self)


def same_dim_full(k, shape, a, j):
    return True


def _lt(a, b):
    if isinstance(a, tuple):
        return True
    return wrap(z3.simplify(tr(a) < tr(b)))


def _ge(a, b):
    return wrap(z3.simplify(tr(a) >= tr(b)))


def _take(arr, ks):
    g = arr.getter()
    n0 = arr.shape[0]

    def f(idx):
        if isinstance(idx[0], int):
            return g((norm_index(ks[idx[0]], n0),) + tuple(idx[1:]))
        v = None
        for j, k in enumerate(ks):
            x = g((norm_index(k, n0),) + tuple(idx[1:]))
            v = x if v is None else ite(ieq(idx[0], j), x, v)
        return v
    return f


def to_float(x):
    if isinstance(x, bool):
        return float(x)
    if isinstance(x, int):
        return float(x)
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.e))
    if isinstance(x, SymBool):
        return SymReal(trr(x))
    return x


def np_div(a, b):
    if isinstance(a, Ext):
        return a / b
    if isinstance(b, Ext) or core._isinf(b):
        raise Unsupported("division by inf")
    if core._isinf(a):
        return Ext.of(a) / b if core.is_sym(b) else a / b
    if not core.is_sym(a) and not core.is_sym(b):
        if b == 0:
            if a == 0:
                raise Unsupported("nan constant")
            return float("inf") if a > 0 else -float("inf")
        return fdiv(a, b)
    if not core.is_sym(b) and b == 0:
        raise Unsupported("division of symbolic value by zero")
    if isinstance(a, (int, float)) and a == 0:
        return 0.0
    return wrap(trr(a) / trr(b))


def fdiv(a, b):
    f = Fraction(a) / Fraction(b)
    return f


def np_floordiv(a, b):
    return core.py_divmod(a, b)[0] if core.is_sym(a) or core.is_sym(b) else a // b


def np_mod(a, b):
    return core.py_divmod(a, b)[1] if core.is_sym(a) or core.is_sym(b) else a % b


def np_eq(a, b):
    r = a == b
    return r


def np_ne(a, b):
    return a != b


def np_and(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return wrap(z3.simplify(z3.And(tb(a), tb(b))))
    return a & b


def np_or(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return wrap(z3.simplify(z3.Or(tb(a), tb(b))))
    return a | b


def sabs(x):
    if isinstance(x, Ext):
        return Ext.mk(trr(abs(SymReal(x.fin))), z3.Or(x.p, x.n), z3.BoolVal(False))
    return abs(x)


def from_fn(shape, fn, dtype="f"):
    return SymArray(Buf(shape, fn, dtype=dtype))


def scalar(v):
    return SymArray(Buf((), cells={(): v}, dtype=dt_of(v)))


def dt_of(v):
    if isinstance(v, (bool, SymBool)):
        return "b"
    if isinstance(v, (int, SymInt)):
        return "i"
    if isinstance(v, str):
        return "s"
    return "f"


def join_dt(ds):
    ds = list(ds)
    if "s" in ds:
        return "s"
    if "f" in ds:
        return "f"
    if "i" in ds:
        return "i"
    return "b"


class SymSeq:
    """immutable-by-convention sequence of symbolic length (see lang.SList for the mutable one)"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def sym_len(self):
        return self.n

    def sym_get(self, i):
        return self.fn(i)


EXACT = ("int", "int_", "int64", "intp", "float", "float_", "float64", "double", "bool", "bool_", "f8", "i8", "d", "f", "i", "b", "?", "object", "str")


def dtype_name(t):
    """name of a type in which numbers are kept as exactly as the engine assumes"""
    n = getattr(t, "__name__", str(t))
    if n not in EXACT or (isinstance(t, str) and t in ("f", "i", "b")):
        raise Unsupported(f"numbers of type {n}")
    return n


HARMLESS = {"order": ("C", "K", "A"), "subok": (True, False), "copy": (True, False), "casting": ("same_kind", "safe", "no", "equiv"),
            "keepdims": (False,), "where": (True,), "sparse": (False,), "equal_nan": (False,), "ndmin": (0,)}


def only(k):
    """options of a numpy function which do not change what the contract says"""
    for name, v in k.items():
        if v is None:
            continue
        if name == "dtype":
            dtype_name(v)
        elif name not in HARMLESS or not any(v is h or (type(v) is type(h) and v == h) for h in HARMLESS[name]):
            raise Unsupported(f"option {name} of a numpy function")


def same_dtype(have, t):
    n = dtype_name(t)
    want = "i" if n.startswith("int") else "f" if n.startswith("float") or n == "double" else "b" if n.startswith("bool") else None
    return str(have)[:1] == want


def asarray(v, dtype=None):
    """np.array(v) (copy)"""
    if isinstance(v, SymArray):
        r = v.copy()
        if getattr(v, "coef", None) is not None and v.buf.nwrites == 0:
            r.coef = v.coef
    elif isinstance(v, Filtered):
        raise Unsupported("array of filtered")
    elif getattr(v, "filtered", None) is not None:
        return v.filtered.as_filtered()
    elif isinstance(v, (int, float, Fraction, SymNum, SymBool, Ext)):
        r = scalar(v)
    elif hasattr(v, "sym_len") and not isinstance(v.sym_len(), int):
        n = v.sym_len()
        fn = v.frozen_get() if hasattr(v, "frozen_get") else v.sym_get
        # element template
        probe = generic_value(n, lambda i: asarray(fn(i)))
        g = CTX.fresh_idx("g")
        sh = probe_shape(n, fn)

        cache = {}

        def f(idx):
            i = idx[0]
            k = i if isinstance(i, int) else i.e.get_id() if isinstance(i, SymInt) else None
            k = (k, id(CTX.nested))
            hit = cache.get(k)
            if hit is None:
                e = fn(i)
                e = e if isinstance(e, SymArray) else asarray(e)
                hit = (i, e.getter(), CTX.nested)
                cache[k] = hit
            return hit[1](tuple(idx[1:]))

        r = from_fn((n,) + sh, f, probe.dtype)
    elif isinstance(v, (list, tuple)) or hasattr(v, "sym_len"):
        items = [v.sym_get(i) for i in range(v.sym_len())] if hasattr(v, "sym_len") else list(v)
        if not items:
            r = SymArray(Buf((0,), cells={}, dtype="f"))
        else:
            if any(isinstance(x, str) for x in items):
                raise Unsupported("string array")
            arrs = [asarray(x) for x in items]
            nd = arrs[0].ndim
            if any(a.ndim != nd for a in arrs):
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
            for a in arrs[1:]:
                if not all(dim_eq_branch(x, y) for x, y in zip(a.shape, arrs[0].shape)):
                    raise ValueError("inhomogeneous shape")
            gs = [a.getter() for a in arrs]
            dt = join_dt(a.dtype for a in arrs)

            def f(idx):
                i = idx[0]
                if isinstance(i, int):
                    return gs[i](tuple(idx[1:]))
                out = gs[-1](tuple(idx[1:]))
                for j in range(len(gs) - 2, -1, -1):
                    out = ite(ieq(i, j), gs[j](tuple(idx[1:])), out)
                return out

            r = from_fn((len(items),) + arrs[0].shape, f, dt)
    elif v is None:
        raise Unsupported("np.array(None)")
    elif hasattr(v, "__iter__") and not isinstance(v, (str, dict, set)):
        return asarray(list(v), dtype)
    else:
        raise Unsupported(f"np.array of {type(v).__name__}")
    if dtype is not None:
        r = r.astype(dtype)
    return r


def probe_shape(n, fn):
    p = generic_value(n, lambda i: asarray(fn(i)))
    return p.shape


def generic_value(n, f):
    """value of f at a generic index < n (for shapes and types)"""
    g = CTX.fresh_idx("g")
    outs = generic_eval(lambda: f(SymInt(g)), [g >= 0, g < tr(n)])
    vals = [o for o in outs if o[1] == "value"]
    if not vals:
        if outs:
            raise outs[0][2]
        # empty range
        raise Unsupported("generic element of an empty sequence")
    return vals[0][2]


def bcast_shape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = 1
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
            elif same(cur, d):
                if isinstance(d, Prod):
                    cur = d
            else:
                # undecided or different
                if isinstance(d, Prod) or isinstance(cur, Prod):
                    if bool(wrap(z3.simplify(tr(dim_size(cur)) == tr(dim_size(d))))):
                        raise Unsupported("mixed flattened dimensions")
                    raise ValueError("operands could not be broadcast together")
                if bool(wrap(z3.simplify(tr(cur) == tr(d)))):
                    pass
                elif bool(wrap(z3.simplify(z3.Or(tr(d) == 1, tr(cur) == 1)))):
                    raise Unsupported("broadcast of symbolic dimension of size one")
                else:
                    raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bcast_getter(a, shape):
    """getter of a broadcast to shape"""
    off = len(shape) - a.ndim
    if off < 0:
        # leading ones may be dropped
        if all(isinstance(d, int) and d == 1 for d in a.shape[:-off]):
            g0 = a.getter()
            return lambda idx: g0((0,) * (-off) + tuple(idx))
        raise ValueError("could not broadcast input array into shape")
    g = a.getter()
    ones = []
    for k, d in enumerate(a.shape):
        t = shape[k + off]
        if isinstance(d, int) and d == 1 and not (isinstance(t, int) and t == 1):
            ones.append(True)
        else:
            if not same(d, t):
                if isinstance(d, Prod) or isinstance(t, Prod):
                    if not dim_eq_branch(d, t):
                        raise ValueError("could not broadcast input array into shape")
                    raise Unsupported("mixed flattened dimensions")
                if not dim_eq_branch(d, t):
                    raise ValueError("could not broadcast input array into shape")
            ones.append(False)

    def f(idx):
        idx = idx[off:] if off else idx
        return g(tuple(0 if o else i for o, i in zip(ones, idx)))

    return f


def elementwise(f, arrs, dt=None, where=None):
    shape = bcast_shape([a.shape for a in arrs])
    gs = [bcast_getter(a, shape) for a in arrs]
    if dt is None:
        dt = join_dt(a.dtype for a in arrs)
        if dt == "b":
            dt = "i"
    memo = {}

    def fn(idx):
        return f(*[g(idx) for g in gs])

    r = from_fn(shape, fn, dt)
    return r


def unwrap0(r):
    if isinstance(r, SymArray) and not r.shape:
        return r.at(())
    return r


# ---------------------------------------------------------------------------
def same_mask(shape, mask, o):
    """the selection o has this very mask (over the same shape)"""
    if len(shape) != len(o.base_shape) or not all(same(a, b) for a, b in zip(shape, o.base_shape)):
        return False
    if concrete(shape):
        return all(z3.simplify(tb(mask(i))).eq(z3.simplify(tb(o.mask(i)))) for i in all_idx(shape))
    gi = pack_idx([SymInt(CTX.fresh_idx("g")) for _ in flat_dims(shape)], shape)
    return z3.simplify(tb(mask(gi))).eq(z3.simplify(tb(o.mask(gi))))


class Filtered:
    """selection arr[mask] over the first dimension (or all); supports reductions and elementwise ops

    row: shape of the selected elements (get returns an array then)"""

    _is_filtered = True

    def __init__(self, shape, get, mask, row=()):
        self.base_shape, self.get, self.mask, self.row = shape, get, mask, row

    def _un(self, f):
        g = self.get
        if self.row:
            return Filtered(self.base_shape, lambda i: elementwise(f, (g(i),)), self.mask, self.row)
        return Filtered(self.base_shape, lambda i: f(g(i)), self.mask)

    def _bin(self, o, f, swap=False):
        if isinstance(o, Filtered):
            g, h = self.get, o.get
            if self.row != o.row:
                raise Unsupported("rows of different shape")
            if o.mask is not self.mask and not same_mask(self.base_shape, self.mask, o):
                raise Unsupported("different masks")
            if self.row:
                return Filtered(self.base_shape, lambda i: elementwise(f, (g(i), h(i))), self.mask, self.row)
            return Filtered(self.base_shape, lambda i: f(g(i), h(i)), self.mask)
        if isinstance(o, SymArray) and not o.shape:
            o = o.at(())
        if isinstance(o, SymArray) and not (self.row and o.ndim <= len(self.row)
                                            and all(same(x, y) for x, y in zip(o.shape[::-1], self.row[::-1]))):
            raise Unsupported("filtered with array")
        g = self.get
        if self.row:
            c = conv(o)
            return Filtered(self.base_shape, lambda i: elementwise(f, (c, g(i)) if swap else (g(i), c)), self.mask, self.row)
        return Filtered(self.base_shape, (lambda i: f(o, g(i))) if swap else (lambda i: f(g(i), o)), self.mask, self.row)

    def __add__(self, o): return self._bin(o, operator.add)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, operator.sub)
    def __rsub__(self, o): return self._bin(o, operator.sub, True)
    def __mul__(self, o): return self._bin(o, operator.mul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, np_div)
    def __rtruediv__(self, o): return self._bin(o, np_div, True)
    def __neg__(self): return self._un(operator.neg)
    def __pow__(self, o): return self._bin(o, operator.pow)

    def count(self):
        m = self.mask
        return reduce_sum(self.base_shape, lambda i: mask_int(m(i)))

    def sum(self, axis=None):
        g, m = self.get, self.mask
        if self.row:
            if axis in (0, (0,)):
                return unwrap0(from_fn(self.row, lambda j: Filtered(self.base_shape, lambda i: g(i).at(j), m).sum()))
            if axis is None:
                return Filtered(self.base_shape, lambda i: np_sum(g(i)), m).sum()
            if isinstance(axis, int) and len(self.row) == 1 and axis in (1, -1):
                return Filtered(self.base_shape, lambda i: np_sum(g(i)), m)
            raise Unsupported("axis of a selection")
        if axis not in (None, 0, -1):
            raise Unsupported("axis of a selection")

        def body(i):
            c = m(i)
            if c is True:
                return g(i)
            if c is False:
                return 0.0
            return ite(c, finite(g(i), c), 0.0)
        return reduce_sum(self.base_shape, body)

    def mean(self, axis=None):
        if self.row:
            if axis in (0, (0,)):
                return self.sum(0) / self.count()
            raise Unsupported("axis of a selection")
        return np_div(self.sum(axis), self.count())

    @property
    def size(self):
        return self.count()

    @property
    def shape(self):
        return (self.count(),) + tuple(self.row)

    @property
    def ndim(self):
        return 1 + len(self.row)

    def sym_len(self):
        return self.count()


def finite(v, c):
    if isinstance(v, Ext):
        if CTX.known(z3.Implies(tb(c), z3.And(z3.Not(v.p), z3.Not(v.n)))):
            return SymReal(v.fin)
        raise Unsupported("sum over extended reals")
    return v


def mask_int(c):
    if isinstance(c, bool):
        return int(c)
    return SymInt(z3.If(tb(c), z3.IntVal(1), z3.IntVal(0)))


class Agg:
    def __init__(self, var, n, body, params):
        self.var, self.n, self.body, self.params = var, n, body, params


def free_generics(t, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return acc
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        if (n.startswith(("g!", "s!", "k!", "bv!")) and t.sort() == IntS) and not any(t.eq(a) for a in acc):
            acc.append(t)
    for c in t.children():
        free_generics(c, acc, seen)
    return acc


def agg_sum(n, f):
    """Sum_{i<n} f(i)"""
    if isinstance(n, int):
        r = 0
        for i in range(n):
            r = r + f(i)
        return r
    v = CTX.fresh_idx("s")
    CTX.loops.append(v)
    try:
        outs = generic_eval(lambda: f(SymInt(v)), [v >= 0, v < tr(n)])
    finally:
        CTX.loops.pop()
    if not outs:
        return 0
    for c, k, x in outs:
        if k == "raise":
            raise Unsupported(f"exception inside sum: {x!r}")
    val = merge(outs)
    if isinstance(val, (bool, SymBool)):
        val = mask_int(val)
    if isinstance(val, Ext):
        raise Unsupported("sum over extended reals")
    if not core.is_sym(val) and val == 0:
        return val
    body = tr(val)
    if not core.is_sym(val):
        return n * val
    params = [p for p in free_generics(body) + free_generics(tr(n)) if not p.eq(v)]
    ded = []
    for p in params:
        if not any(p.eq(q) for q in ded):
            ded.append(p)
    name = CTX.fresh_name("agg")
    CTX.aggs[name] = Agg(v, tr(n), body, ded)
    if ded:
        t = z3.Function(name, *[p.sort() for p in ded], body.sort())(*ded)
    else:
        t = z3.Const(name, body.sort())
    return wrap(t)


def reduce_sum(shape, g):
    """sum of g(idx) over all idx of shape"""
    def rec(k, idx):
        if k == len(shape):
            return g(tuple(idx))
        d = shape[k]
        if isinstance(d, Prod):
            def rec2(j, sub):
                if j == len(d):
                    return rec(k + 1, idx + [tuple(sub)])
                if isinstance(d[j], Prod):
                    raise Unsupported("nested flattened dimension")
                return agg_sum(d[j], lambda i: rec2(j + 1, sub + [i]))
            return rec2(0, [])
        return agg_sum(d, lambda i: rec(k + 1, idx + [i]))
    return rec(0, [])


def _axis_reduce(a, axis, f, dtype=None):
    """apply f(shape_of_reduced, getter) along axis"""
    if axis is None:
        return f(a.shape, a.getter())
    if isinstance(axis, (tuple, list)):
        axes = sorted(x % a.ndim for x in axis)
    else:
        if not -a.ndim <= axis < a.ndim:
            raise ValueError(f"axis {axis} is out of bounds for array of dimension {a.ndim}")
        axes = [axis % a.ndim]
    keep = [k for k in range(a.ndim) if k not in axes]
    g = a.getter()
    rshape = tuple(a.shape[k] for k in axes)

    def fn(idx):
        def sub(r):
            full = [None] * a.ndim
            for k, i in zip(keep, idx):
                full[k] = i
            for k, i in zip(axes, r):
                full[k] = i
            return g(tuple(full))
        return f(rshape, sub)

    r = from_fn(tuple(a.shape[k] for k in keep), fn, dtype or ("f" if a.dtype == "f" else "i"))
    return unwrap0(r)


def conv(a):
    return a if isinstance(a, (SymArray, Filtered)) else asarray(a)


def np_sum(a, axis=None, **k):
    only(k)
    a = conv(a)
    if isinstance(a, Filtered):
        return a.sum(axis)
    return _axis_reduce(a, axis, lambda sh, g: reduce_sum(sh, lambda i: num(g(i))))


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SymBool):
        return mask_int(v)
    return v


def np_mean(a, axis=None, **k):
    only(k)
    a = conv(a)
    if isinstance(a, Filtered):
        return a.mean(axis)
    return _axis_reduce(a, axis, lambda sh, g: np_div(reduce_sum(sh, lambda i: num(g(i))), shape_size(sh)))


def np_prod(a, axis=None, **k):
    only(k)
    a = conv(a)

    def f(sh, g):
        if not concrete(sh):
            raise Unsupported("product over symbolic dimension")
        r = 1
        for i in all_idx(sh):
            r = r * g(i)
        return r
    return _axis_reduce(a, axis, f)


def np_min(a, axis=None, sign=1, **k):
    only(k)
    a = conv(a)
    if isinstance(a, Filtered):
        raise Unsupported("min of filtered")

    def f(sh, g):
        if concrete(sh):
            r = None
            for i in all_idx(sh):
                v = g(i)
                if r is None:
                    r = v
                else:
                    lt = (v < r) if sign > 0 else (v > r)
                    r = ite(lt, v, r)
            if r is None:
                raise ValueError("zero-size array to reduction operation minimum which has no identity")
            return r
        return sym_min(sh, g, sign)
    return _axis_reduce(a, axis, f)


def np_max(a, axis=None, **k):
    only(k)
    return np_min(a, axis, sign=-1)


def flat_dims(sh):
    out = []
    for d in sh:
        if isinstance(d, Prod):
            out.extend(d)
        else:
            out.append(d)
    return out


def pack_idx(flat, sh):
    it = iter(flat)
    out = []
    for d in sh:
        if isinstance(d, Prod):
            out.append(tuple(next(it) for _ in d))
        else:
            out.append(next(it))
    return tuple(out)


def sym_min(sh, g, sign):
    """minimum (maximum) over a symbolic index space: witness + bound facts.

    Repeated computation over provably the same contents returns the same value."""
    dims = flat_dims(sh)
    gi = [CTX.fresh_idx("g") for _ in dims]
    for v in gi:
        CTX.loops.append(v)
    guard = [z3.And(v >= 0, v < tr(d)) for v, d in zip(gi, dims)]
    try:
        val = merge(generic_eval(lambda: g(pack_idx([SymInt(v) for v in gi], sh)), guard))
    finally:
        for v in gi:
            CTX.loops.pop()
    for (sg, sh2, gi2, val2, res, _, _) in CTX.mins:
        if sg == sign and len(sh2) == len(sh) and all(same(x, y) for x, y in zip(flat_dims(sh2), dims)):
            v2 = subst_val(val2, list(zip(gi2, gi)))
            if val_key(v2) == val_key(val):
                return res
    wit = [SymInt(CTX.fresh("wit", IntS)) for _ in dims]
    for w, d in zip(wit, dims):
        CTX.fact(z3.Implies(tr(d) > 0, z3.And(w.e >= 0, w.e < tr(d))))
    m = CTX.fresh("min" if sign > 0 else "max", RealS if not isinstance(val, SymInt) else IntS)
    wv = subst_val(val, list(zip(gi, [w.e for w in wit])))
    if isinstance(val, Ext):
        if sign < 0:
            raise Unsupported("max of extended reals")
        if not z3.is_false(z3.simplify(val.n)):
            raise Unsupported("min with -inf")
        allinf = CTX.fresh("allinf", BoolS)
        # the witness attains the minimum; if its value is inf, all are
        CTX.fact(wv.p == allinf)
        CTX.fact(z3.Implies(z3.Not(allinf), wv.fin == m))
        res = Ext.mk(m, allinf, z3.BoolVal(False))

        def inst(idx):
            e = subst_val(val, list(zip(gi, [tr(i) for i in idx])))
            c = z3.And(*[z3.And(tr(i) >= 0, tr(i) < tr(d)) for i, d in zip(idx, dims)])
            CTX.fact(z3.Implies(z3.And(c, z3.Not(e.p)), z3.And(z3.Not(allinf), m <= e.fin)))
    else:
        CTX.fact(tr(wv) == m)
        res = wrap(m)

        def inst(idx):
            e = tr(subst_val(val, list(zip(gi, [tr(i) for i in idx]))))
            c = z3.And(*[z3.And(tr(i) >= 0, tr(i) < tr(d)) for i, d in zip(idx, dims)])
            CTX.fact(z3.Implies(c, (m <= e) if sign > 0 else (m >= e)))
    CTX.mins.append((sign, sh, gi, val, res, wit, inst))
    return res


def subst_val(v, subs):
    if CTX.divs and isinstance(v, (Ext, SymNum, SymBool)):
        subs = CTX.with_divs(subs)
    if isinstance(v, Ext):
        return Ext(z3.substitute(v.fin, *subs), z3.substitute(v.p, *subs), z3.substitute(v.n, *subs))
    if isinstance(v, (SymNum, SymBool)):
        return wrap(z3.substitute(v.e, *subs))
    if isinstance(v, tuple):
        return (Prod if isinstance(v, Prod) else tuple)(subst_val(x, subs) for x in v)
    if isinstance(v, SymArray):
        g = v.getter()
        return from_fn(v.shape, lambda idx: subst_val(g(idx), subs), v.dtype)
    return v


def val_key(v):
    from . import nf

    c = nf.converter(CTX)
    if isinstance(v, Ext):
        return ("ext", c.term(v.fin).key(), c.cond(v.p).key(), c.cond(v.n).key())
    if isinstance(v, SymBool) or isinstance(v, bool):
        return ("b", c.cond(tb(v)).key())
    if isinstance(v, (SymNum, int, float, Fraction)):
        if core._isinf(v):
            return ("inf", v)
        return ("n", c.term(tr(v)).key())
    return ("o", repr(v))


def np_any(a, axis=None, **k):
    only(k)
    a = conv(a)

    def f(sh, g):
        if concrete(sh):
            return wrap(z3.simplify(z3.Or(*[tb(g(i)) for i in all_idx(sh)]))) if list(all_idx(sh)) else False
        return quant_any(sh, g)
    return _axis_reduce(a, axis, f, "b")


def quant_any(sh, g):
    dims = flat_dims(sh)
    gi = [CTX.fresh_idx("g") for _ in dims]
    guard = [z3.And(v >= 0, v < tr(d)) for v, d in zip(gi, dims)]
    val = merge(generic_eval(lambda: g(pack_idx([SymInt(v) for v in gi], sh)), guard))
    t = z3.simplify(tb(val))
    if z3.is_false(t):
        return False
    return wrap(z3.Exists(gi, z3.And(*guard, t)))


def np_all(a, axis=None, **k):
    only(k)
    a = conv(a)

    def f(sh, g):
        if concrete(sh):
            ts = [tb(g(i)) for i in all_idx(sh)]
            return wrap(z3.simplify(z3.And(*ts))) if ts else True
        r = quant_any(sh, lambda i: wrap(z3.simplify(z3.Not(tb(g(i))))))
        return (not r) if isinstance(r, bool) else wrap(z3.Not(r.e))
    return _axis_reduce(a, axis, f, "b")


def dot(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return np_sum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        return np_sum(a * b, axis=1)
    raise Unsupported("dot")


def _norm_shape(x):
    out = []
    for d in x:
        if isinstance(d, Prod):
            out.append(d)
        elif isinstance(d, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
        elif isinstance(d, SymReal):
            raise TypeError("real number as dimension")
        else:
            out.append(d)
    return tuple(out)


def factor_list(shape):
    out = []
    for d in shape:
        if isinstance(d, Prod):
            out.extend(factor_list(d))
        elif isinstance(d, int) and d == 1:
            continue
        else:
            out.append(d)
    return out


def reshape(a, shape):
    """numpy reshape, C order.  Works on the list of elementary factors."""
    shape = list(_norm_shape(shape))
    if any(isinstance(d, int) and d == -1 for d in shape):
        k = [j for j, d in enumerate(shape) if isinstance(d, int) and d == -1][0]
        rest = [d for j, d in enumerate(shape) if j != k]
        # match known factors from the right / left
        fs = factor_list(a.shape)
        right = factor_list(shape[k + 1:])
        left = factor_list(shape[:k])
        ok = len(fs) >= len(right) + len(left)
        if ok:
            ok = all(same(x, y) for x, y in zip(reversed(fs), reversed(right))) and all(same(x, y) for x, y in zip(fs, left))
        if ok:
            mid = fs[len(left):len(fs) - len(right)]
            shape[k] = mid[0] if len(mid) == 1 else (1 if not mid else Prod(mid))
            if isinstance(shape[k], Prod) and all(isinstance(x, int) for x in shape[k]):
                shape[k] = shape_size(shape[k])
        else:
            tot = shape_size(a.shape)
            r = shape_size(rest)
            if isinstance(tot, int) and isinstance(r, int):
                if r == 0 or tot % r:
                    raise ValueError("cannot reshape array")
                shape[k] = tot // r
            else:
                q, rem = core.py_divmod(tot, r)
                if rem != 0:
                    raise ValueError("cannot reshape array")
                shape[k] = q
    shape = tuple(shape)
    if len(shape) == len(a.shape) and all(same(x, y) for x, y in zip(shape, a.shape)):
        v = SymArray(a.buf, a.axes, a.shape)
        v.ro = a.ro
        return v
    f1, f2 = factor_list(a.shape), factor_list(shape)
    if not (len(f1) == len(f2) and all(same(x, y) for x, y in zip(f1, f2))):
        # a product dimension given as one number (np.prod(n_points))
        if len(f2) < len(f1):
            grouped = group_factors(f1, shape)
            if grouped is not None:
                return reshape(a, grouped)
        t1, t2 = shape_size(a.shape), shape_size(shape)
        if not dim_eq_branch(t1, t2):
            raise ValueError(f"cannot reshape array of size {t1} into shape {shape}")
        return reshape_generic(a, shape)
    g = a.getter()
    src = a.shape

    def fn(idx):
        flat = []

        def expand(i, d):
            if isinstance(d, Prod):
                if not isinstance(i, tuple):
                    i = unflat(i, d)
                for x, y in zip(i, d):
                    expand(x, y)
            elif isinstance(d, int) and d == 1:
                return
            else:
                flat.append(i)
        for i, d in zip(idx, shape):
            expand(i, d)
        it = iter(flat)

        def build(d):
            if isinstance(d, Prod):
                return tuple(build(x) for x in d)
            if isinstance(d, int) and d == 1:
                return 0
            return next(it)
        return g(tuple(build(d) for d in src))

    # write-through for simple axis insertion/removal of unit dims on full arrays
    return SymArray(LazyBuf(shape, fn, a), None, None)


class LazyBuf(Buf):
    """contents of a reshaped view (always reads the current base contents)"""

    def __init__(self, shape, fn, base):
        Buf.__init__(self, shape, fn, dtype=base.dtype)
        self.base = base.buf
        self.seen = base.buf.nwrites

    def _check(self):
        if self.base is not None and self.base.nwrites != self.seen:
            raise Unsupported("read of a reshaped view after its base was changed")

    def write(self, cond, val):
        """the base becomes unreadable: from now on the view is the only copy"""
        self._check()
        if self.base is not None:
            first = self.base

            def stale(*a):
                raise Unsupported("use of an array after a write through a reshaped view of it")
            chain, b = [], first
            while b is not None:
                chain.append((b, b.nwrites))
                b = getattr(b, "base", None)

            def undo():
                for b, w in chain:
                    for k in ("getter", "get", "write"):
                        b.__dict__.pop(k, None)
                    b.nwrites = w
                self.base = first
            for b, w in chain:
                CTX.note(b, ("stale", id(self)), undo)
                b.getter = b.get = b.write = stale
                b.nwrites = w + 1
            self.base = None
        Buf.write(self, cond, val)

    def getter(self):
        self._check()
        return Buf.getter(self)

    def get(self, idx):
        self._check()
        return Buf.get(self, idx)


def group_factors(fs, shape):
    """express dims of shape given as numbers as products of consecutive factors"""
    out = []
    j = 0
    for d in shape:
        if isinstance(d, int) and d == 1:
            out.append(1)
            continue
        if isinstance(d, Prod):
            out.append(d)
            j += len(factor_list((d,)))
            continue
        acc = []
        p = 1
        found = False
        while j < len(fs):
            acc.append(fs[j])
            p = p * fs[j]
            j += 1
            if same(p, d):
                found = True
                break
        if not found:
            return None
        out.append(acc[0] if len(acc) == 1 else Prod(acc))
    if j != len(fs):
        return None
    return tuple(out)


def reshape_generic(a, shape):
    g = a.getter()
    src = a.shape

    def fn(idx):
        m = flat_of(idx, shape)
        return g(unflat(m, src))

    return SymArray(LazyBuf(shape, fn, a), None, None)
