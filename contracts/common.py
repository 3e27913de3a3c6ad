"""Shared pieces of the contracts: arbitrary states and contract stubs of callees."""
import z3 as _z3

from engine import core, arrays as A, npshim
from engine.core import CTX, SymBool, SymInt, SymNum, SymReal, Unsupported, eq, generic_eval, ite, merge, tb, tr, trr, wrap
from engine.arrays import Buf, SymArray, from_fn, asarray
from engine.lang import Repo, LANG, SDict
from engine.values import Element, ObjList, ObjValue, SList, subst_struct
from engine.prove import contract

R, I, B = core.RealS, core.IntS, core.BoolS
NP = ["numpy.array/asarray/empty/sqrt/exp and elementwise arithmetic (contracts of engine/npshim.py)"]
REALS = "floating point arithmetic is treated as exact real arithmetic"


class Names:
    """z3 with a name space for the symbols of the contracts (see prove.warm)"""
    prefix = ""

    def __getattr__(self, name):
        v = getattr(_z3, name)
        if name in ("Const", "Function", "Int", "Real", "Bool"):
            def f(sym, *a):
                return v(sym if sym in SHARED or sym.startswith("poly") else self.prefix + sym, *a)
            return f
        return v


z3 = Names()
SHARED = {"coef_at", "pi", "exp", "log", "sqrt", "pow"}
REPOS = []  # of the current path, in the order of the calls
REUSE = []  # the ones to hand out again


def repo():
    r = REUSE.pop(0) if REUSE else Repo()
    REPOS.append(r)
    return r


MODE = {"earlier": False}
WATCH = []


def earlier(obj, prior, known=()):
    """obj may have been used before.  The contract describes the attributes `known`; if a use changes any other
    attribute, the contract is explored a second time, after the use `prior` on unrelated data (see prove.used_before)."""
    if MODE["earlier"]:
        z3.prefix, CTX.muted = "e!" + z3.prefix, True
        try:
            prior()
        except Exception:
            raise core.PathEnd()
        finally:
            z3.prefix, CTX.muted = z3.prefix[2:], False
        CTX.events.clear()
        CTX.rng_log.clear()
    WATCH.append((obj, known, object_state(obj, known), "earlier"))


def closed(obj, known=()):
    """the contract starts from an arbitrary state of obj, given by the attributes `known`.  If the code changes any other
    attribute, that state is not arbitrary: nothing of the contract counts then (neither proved nor refuted)."""
    WATCH.append((obj, known, object_state(obj, known), "closed"))


class Thing:
    def __init__(self, **k):
        self.__dict__.update(k)


def replace_walker(parts):
    """birth-death: an arbitrary entry of the list becomes another object; all walkers move"""
    r = integer("replaced")
    CTX.assume(z3.And(r.e >= 0, r.e < tr(parts.n)))
    before = parts.snapshot()
    for f, b in parts.fields.items():
        g = z3.Function(CTX.fresh_name("now_" + f), *[I] * len(b.shape), R)
        b.hold((None, (lambda g: lambda idx: wrap(g(*[tr(q) for q in idx])))(g)))
    parts.changed((r, before))


def other_walkers(parts, use):
    """use() while the entries of the list hold other walkers, one of which is replaced afterwards"""
    st = {f: b.state() for f, b in parts.fields.items()}
    n = parts.n
    for f, b in parts.fields.items():
        nd = len(b.shape)
        g = z3.Function(CTX.fresh_name("earlier_" + f), *[I] * nd, R)
        b.hold((None, (lambda g: lambda idx: wrap(g(*[tr(q) for q in idx])))(g)))
    use()
    if not A.same(parts.n, n):
        raise core.PathEnd()
    before = parts.snapshot()
    for f, b in parts.fields.items():
        b.set_state(st[f])
    r = integer("replaced")
    CTX.assume(z3.And(r.e >= 0, r.e < tr(n)))
    parts.changed((r, before))


def other_values(arrays, use):
    """use() while the arrays hold other values"""
    st = [a.buf.state() for a in arrays]
    for a in arrays:
        g = z3.Function(CTX.fresh_name("earlier"), *[I] * len(a.buf.shape), R)
        fn = (lambda g: lambda idx: wrap(g(*[tr(q) for q in idx])))(g)
        a.buf.set_state(({i: fn(i) for i in st[arrays.index(a)][0]}, None) if a.buf.cells is not None else (None, fn))
    use()
    for a, s in zip(arrays, st):
        a.buf.set_state(s)


def object_state(obj, known):
    from engine.lang import Leaf
    stack, keep = [], []

    def fp(v, depth=0):
        keep.append(v)
        if depth > 4 or id(v) in stack or isinstance(v, (int, float, str, SymNum, ObjList, type)) or callable(v):
            return Leaf(v)
        stack.append(id(v))
        try:
            if isinstance(v, SymArray):
                return (Leaf(v.buf), v.buf.nwrites)
            if isinstance(v, dict):
                return [(Leaf(k), fp(x, depth + 1)) for k, x in dict.items(v)]
            if isinstance(v, SList):
                items_, seg = v._state()
                return [[fp(x, depth + 1) for x in items_], [[fp(x, depth + 1) for x in q] for q in seg or []]]
            if isinstance(v, (list, tuple, set)):
                return [fp(x, depth + 1) for x in v]
            d = getattr(v, "__dict__", None)
            if isinstance(d, dict) and type(v).__module__.startswith("bdld"):
                return [Leaf(v)] + [(k, fp(x, depth + 1)) for k, x in d.items() if k not in ("_birth", "_frozen_obj")]
            return Leaf(v)
        finally:
            stack.pop()
    return [(k, fp(v)) for k, v in obj.__dict__.items() if k not in known and k not in ("_birth", "_frozen_obj")], keep


def hidden_state_changed():
    from engine.lang import Leaf

    def same(x, y):
        if isinstance(x, Leaf) and isinstance(y, Leaf):
            return x.v is y.v or (isinstance(x.v, SymNum) and isinstance(y.v, SymNum) and x.v.e.eq(y.v.e)) or \
                (type(x.v) is type(y.v) and isinstance(x.v, (int, float, str)) and x.v == y.v)
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
        return type(x) is type(y) and not isinstance(x, Leaf) and x == y
    out = []
    for obj, known, (st, _), kind in WATCH:
        now = object_state(obj, known)[0]
        if not same(st, now):
            import os
            if os.environ.get("VERIF_HIDDEN"):
                print("HIDDEN", [k for k, v in now if not any(k == k2 and same(v, v2) for k2, v2 in st)], flush=True)
            out.append((kind, type(obj).__name__))
    return out


def real(name):
    return SymReal(z3.Const(name, R))


def integer(name):
    return SymInt(z3.Const(name, I))


def vec(name, d):
    """arbitrary real vector of concrete dimension"""
    return asarray([real(f"{name}{i}") for i in range(d)])


def symvec(name, n, sort=R):
    f = z3.Function(name, I, sort)
    return from_fn((n,), lambda idx: wrap(f(tr(idx[0]))), "f" if sort == R else "i")


def items(a):
    a = asarray(a)
    return [a.at(i) for i in A.all_idx(a.shape)]


def new(cls, **attrs):
    """object with arbitrary state instead of a constructor call"""
    o = cls.__new__(cls)
    for k, v in attrs.items():
        o.__dict__[k] = v
    return o


def raises(fn, *exc):
    """(exception or None, value)"""
    try:
        return None, fn()
    except exc as e:
        return e, None


class AbstractPotential:
    """contract of bdld.potential.Potential seen by the integrators:
    energy/force are functions of the position only; the boundary condition maps
    (position, momentum) to (position, momentum) in place."""

    def __init__(self, d, boundary=True):
        self.n_dim = d
        self.E = z3.Function("E", *[R] * d, R)
        self.F = [z3.Function(f"F{i}", *[R] * d, R) for i in range(d)]
        self.BX = [z3.Function(f"BX{i}", *[R] * (2 * d), R) for i in range(d)]
        self.BM = [z3.Function(f"BM{i}", *[R] * (2 * d), R) for i in range(d)]
        self.boundary = boundary
        self.ranges = SList([(real(f"lo{i}"), real(f"hi{i}")) for i in range(d)])

    def __str__(self):
        return "potential"

    def _p(self, pos):
        pos = asarray(pos)
        if len(pos.shape) != 1 or not A.same(pos.shape[0], self.n_dim):
            raise Unsupported("abstract potential: shape of the position")
        return [trr(pos.at((i,))) for i in range(self.n_dim)]

    def energy(self, pos):
        return wrap(self.E(*self._p(pos)))

    def force(self, pos):
        p = self._p(pos)
        return asarray([wrap(f(*p)) for f in self.F])

    def evaluate(self, pos):
        return (self.energy(pos), self.force(pos))

    def apply_boundary_condition(self, pos, mom):
        if not self.boundary:
            return
        a = self._p(pos) + self._p(mom)
        nx = [wrap(f(*a)) for f in self.BX]
        nm = [wrap(f(*a)) for f in self.BM]
        for i in range(self.n_dim):
            pos[i] = nx[i]
        for i in range(self.n_dim):
            mom[i] = nm[i]

    # specification side
    def bc(self, x, m):
        if not self.boundary:
            return x, m
        a = [trr(v) for v in list(x) + list(m)]
        return [wrap(f(*a)) for f in self.BX], [wrap(f(*a)) for f in self.BM]

    def e(self, x):
        return wrap(self.E(*[trr(v) for v in x]))

    def f(self, x):
        return [wrap(f(*[trr(v) for v in x])) for f in self.F]


def pick(xs, a):
    if isinstance(a, int):
        return xs[a]
    r = xs[-1]
    for q in range(len(xs) - 2, -1, -1):
        r = ite(eq(a, q), xs[q], r)
    return r
