"""Verification core: symbolic values, path exploration, proof obligations.

Real numbers are mathematical reals, ints are mathematical integers
(assumption, reported in the evidence).  exp/log/sqrt/... are uninterpreted
functions with the algebraic laws implemented in nf.py.
"""
import os
import time
from fractions import Fraction

import z3

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Stop(BaseException):
    """base class of engine control flow (never caught by repository code)"""


class PathEnd(Stop):
    pass


class Restart(Stop):
    pass


class Unsupported(Stop):
    pass


class Restart(Stop):
    """the exploration starts again with a weaker assumption on the state"""


# ----------------------------------------------------------------------------
# uninterpreted real functions
EXP = z3.Function("exp", RealS, RealS)
LOG = z3.Function("log", RealS, RealS)
SQRT = z3.Function("sqrt", RealS, RealS)
POW = z3.Function("pow", RealS, RealS, RealS)
PI = z3.Const("pi", RealS)


def is_sym(x):
    return isinstance(x, (SymBool, SymNum))


def tr(v):
    """python / symbolic number -> z3 arithmetic term"""
    if isinstance(v, SymNum):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant in arithmetic")
        f = Fraction(v)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if isinstance(v, Fraction):
        return z3.RealVal(f"{v.numerator}/{v.denominator}")
    if isinstance(v, z3.ArithRef):
        return v
    raise Unsupported(f"not a number: {type(v).__name__}")


def trr(v):
    t = tr(v)
    return z3.ToReal(t) if t.sort() == IntS else t


def tb(v):
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, SymNum):
        return v.e != 0
    if isinstance(v, (int, float)):
        return z3.BoolVal(v != 0)
    raise Unsupported(f"not a boolean: {type(v).__name__}")


def wrap(e):
    """z3 term -> symbolic value (or python constant)"""
    if not isinstance(e, z3.ExprRef):
        return e
    s = e.sort()
    if s == BoolS:
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)
    if s == IntS:
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)
    if s == RealS:
        return SymReal(e)
    raise Unsupported("sort")


def num_const(e):
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


TOKENS, TOKEN_IDS = [], {}


def token(v, spec):
    """placeholder of a symbolic number in a text (values.SymStr.parse gives the number back)"""
    k = (type(v), v.e.get_id() if hasattr(v, "e") else id(v), str(spec))
    if k not in TOKEN_IDS:
        TOKEN_IDS[k] = len(TOKENS)
        TOKENS.append((v, str(spec)))
    return f"\u27e8{TOKEN_IDS[k]}\u27e9"


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __and__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        return wrap(z3.And(self.e, tb(o)))

    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        return wrap(z3.Or(self.e, tb(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return wrap(z3.Xor(self.e, tb(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return wrap(z3.Not(self.e))

    def __eq__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        if isinstance(o, (bool, SymBool)):
            return wrap(self.e == tb(o))
        return self.int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return self.e.hash()

    def int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self.int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.int() - o

    def __rsub__(self, o):
        return o - self.int()

    def __mul__(self, o):
        return self.int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self.int() < o

    def __gt__(self, o):
        return self.int() > o

    def __le__(self, o):
        return self.int() <= o

    def __ge__(self, o):
        return self.int() >= o

    def any(self, *a, **k):
        return self

    all = any

    def __repr__(self):
        return f"SymBool({self.e})"

    def __str__(self):
        return token(self, "")

    def __format__(self, spec):
        return token(self, spec)


def _coerce(a, b):
    ta, tb_ = tr(a), tr(b)
    if ta.sort() != tb_.sort():
        if ta.sort() == IntS:
            ta = z3.ToReal(ta)
        else:
            tb_ = z3.ToReal(tb_)
    return ta, tb_


INF = float("inf")


def _isinf(x):
    return isinstance(x, float) and x in (INF, -INF)


def _other_ok(o):
    return isinstance(o, (int, float, Fraction, SymNum, SymBool))


class SymNum:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # -- arithmetic ----------------------------------------------------------
    def _bin(self, o, f, swap=False):
        if isinstance(o, Ext):
            return NotImplemented
        if not _other_ok(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        x, y = _coerce(a, b)
        return wrap(f(x, y))

    def __add__(self, o):
        if _isinf(o):
            return o
        if isinstance(o, (int, float)) and not isinstance(o, bool) and o == 0 and (isinstance(self, SymReal) or isinstance(o, int)):
            return self
        return self._bin(o, lambda x, y: x + y)

    def __radd__(self, o):
        if _isinf(o):
            return o
        if isinstance(o, (int, float)) and not isinstance(o, bool) and o == 0 and (isinstance(self, SymReal) or isinstance(o, int)):
            return self
        return self._bin(o, lambda x, y: x + y, True)

    def __sub__(self, o):
        if _isinf(o):
            return -o
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        if _isinf(o):
            return o
        return self._bin(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool) and o == 1 and (isinstance(self, SymReal) or isinstance(o, int)):
            return self
        return self._bin(o, lambda x, y: x * y)

    def __rmul__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool) and o == 1 and (isinstance(self, SymReal) or isinstance(o, int)):
            return self
        return self._bin(o, lambda x, y: x * y, True)

    def __truediv__(self, o):
        if isinstance(o, Ext) or not _other_ok(o):
            return NotImplemented
        return py_truediv(self, o)

    def __rtruediv__(self, o):
        if not _other_ok(o):
            return NotImplemented
        return py_truediv(o, self)

    def __floordiv__(self, o):
        if not _other_ok(o):
            return NotImplemented
        return py_divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return py_divmod(o, self)[0]

    def __mod__(self, o):
        if not _other_ok(o):
            return NotImplemented
        return py_divmod(self, o)[1]

    def __rmod__(self, o):
        return py_divmod(o, self)[1]

    def __divmod__(self, o):
        return py_divmod(self, o)

    def __pow__(self, o):
        if not _other_ok(o):
            return NotImplemented
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    def __neg__(self):
        return wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.e >= 0, self.e, -self.e))

    # -- comparison ----------------------------------------------------------
    def _cmp(self, o, f, inf):
        if isinstance(o, Ext):
            return NotImplemented
        if _isinf(o):
            return inf(o)
        if not _other_ok(o):
            return NotImplemented
        x, y = _coerce(self, o)
        r = f(x, y)
        s = z3.simplify(r)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return SymBool(r)

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y, lambda i: i > 0)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y, lambda i: i > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y, lambda i: i < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y, lambda i: i < 0)

    def __eq__(self, o):
        r = self._cmp(o, lambda x, y: x == y, lambda i: False)
        return False if r is NotImplemented and not hasattr(o, "_is_symarray") and not isinstance(o, Ext) else r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return self.e.hash()

    def __bool__(self):
        return CTX.branch(self.e != 0)

    def __repr__(self):
        return f"{type(self).__name__}({self.e})"

    def __str__(self):
        return token(self, "")

    def __format__(self, spec):
        return token(self, spec)

    # numpy object-scalar style helpers
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    mean = max = min = prod = sum

    def astype(self, t):
        return self

    def reshape(self, *shape):
        return CTX.np.array(self).reshape(*shape)


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        c = CTX.unique_value(self.e)
        if c is not None:
            return c
        raise Unsupported(f"symbolic integer used where a concrete index is required: {self.e}")

    __int__ = None

    def is_integer(self):
        return True


class SymReal(SymNum):
    __slots__ = ()

    def is_integer(self):
        return wrap(z3.IsInt(self.e))

    def __float__(self):
        raise Unsupported("concrete float of symbolic real")


class Ext(object):
    """extended real: finite part plus +inf / -inf conditions (exclusive)"""

    __slots__ = ("fin", "p", "n")
    __array_priority__ = 1000

    def __init__(self, fin, p, n):
        self.fin, self.p, self.n = fin, p, n

    @staticmethod
    def of(v):
        if isinstance(v, Ext):
            return v
        if _isinf(v):
            return Ext(z3.RealVal(0), z3.BoolVal(v > 0), z3.BoolVal(v < 0))
        return Ext(trr(v), z3.BoolVal(False), z3.BoolVal(False))

    @staticmethod
    def mk(fin, p, n):
        p, n = z3.simplify(p), z3.simplify(n)
        if z3.is_false(p) and z3.is_false(n):
            return SymReal(fin)
        if z3.is_true(p):
            return INF
        if z3.is_true(n):
            return -INF
        return Ext(fin, p, n)

    def __add__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        o = Ext.of(o)  # inf + -inf excluded (assumed undefined)
        return Ext.mk(self.fin + o.fin, z3.Or(self.p, o.p), z3.Or(self.n, o.n))

    __radd__ = __add__

    def __neg__(self):
        return Ext.mk(-self.fin, self.n, self.p)

    def __sub__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        return self + (-Ext.of(o) if isinstance(Ext.of(o), Ext) else -o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        if isinstance(o, Ext) or _isinf(o):
            raise Unsupported("inf*inf")
        t = trr(o)
        return self._scaled(self.fin * t, t)

    def _scaled(self, fin, t):
        """sign rule for infinities times a finite factor t != 0"""
        if CTX.known(t > 0):
            return Ext.mk(fin, self.p, self.n)
        if CTX.known(t < 0):
            return Ext.mk(fin, self.n, self.p)
        return Ext.mk(fin, z3.Or(z3.And(self.p, t > 0), z3.And(self.n, t < 0)),
                      z3.Or(z3.And(self.n, t > 0), z3.And(self.p, t < 0)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        if isinstance(o, Ext) or _isinf(o):
            raise Unsupported("inf/inf")
        t = trr(o)
        return self._scaled(self.fin / t, t)

    def _fin(self):
        return z3.And(z3.Not(self.p), z3.Not(self.n))

    def __lt__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        o = Ext.of(o)
        return wrap(z3.simplify(z3.Or(z3.And(self._fin(), o._fin(), self.fin < o.fin), z3.And(self.n, z3.Not(o.n)), z3.And(o.p, z3.Not(self.p)))))

    def __gt__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        o = Ext.of(o)
        return wrap(z3.simplify(z3.Or(z3.And(self._fin(), o._fin(), self.fin > o.fin), z3.And(self.p, z3.Not(o.p)), z3.And(o.n, z3.Not(self.n)))))

    def __eq__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        if not isinstance(o, Ext) and not _other_ok(o):
            return False
        o = Ext.of(o)
        return wrap(z3.simplify(z3.Or(z3.And(self._fin(), o._fin(), self.fin == o.fin), z3.And(self.n, o.n), z3.And(o.p, self.p))))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __le__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        return ~b2(self > o)

    def __ge__(self, o):
        if hasattr(o, "_is_symarray"):
            return NotImplemented
        return ~b2(self < o)

    def __hash__(self):
        return hash((self.fin, self.p, self.n))

    def __repr__(self):
        return f"Ext({self.fin},{self.p},{self.n})"

    def __format__(self, s):
        return repr(self)


def b2(x):
    return SymBool(tb(x)) if not isinstance(x, SymBool) else x


def ite(c, a, b):
    """merge two values under a condition"""
    c = tb(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if hasattr(a, "_ite"):
        return a._ite(c, b)
    if hasattr(b, "_ite"):
        return b._ite(z3.Not(c), a)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return wrap(z3.simplify(z3.If(c, tb(a), tb(b))))
    if isinstance(a, Ext) or isinstance(b, Ext) or _isinf(a) or _isinf(b):
        x, y = Ext.of(a), Ext.of(b)
        return Ext.mk(z3.If(c, x.fin, y.fin) if not (x.fin.eq(y.fin)) else x.fin if not _isinf(a) else y.fin,
                      z3.If(c, x.p, y.p), z3.If(c, x.n, y.n)) if not (_isinf(a) or _isinf(b)) else Ext.mk(
                          y.fin if _isinf(a) else x.fin, z3.If(c, x.p, y.p), z3.If(c, x.n, y.n))
    if _other_ok(a) and _other_ok(b):
        x, y = _coerce(a, b)
        if x.eq(y):
            return wrap(x)
        return wrap(z3.If(c, x, y))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if a is None and b is None:
        return None
    if type(a) is type(b) and isinstance(a, (str,)) and a == b:
        return a
    raise Unsupported(f"cannot merge values {type(a).__name__} / {type(b).__name__}")


def py_truediv(a, b):
    """division: ints follow python (ZeroDivisionError), reals follow numpy
    (no exception; the quotient is unspecified for a zero divisor)"""
    y = tr(b)
    yr = z3.ToReal(y) if y.sort() == IntS else y
    if CTX.py_division_checks and y.sort() == IntS and tr(a).sort() == IntS and CTX.branch(y == 0):
        raise ZeroDivisionError("division by zero")
    c = num_const(yr)
    if c == 0:
        raise ZeroDivisionError("division by zero")
    return wrap(trr(a) / yr)


def py_divmod(a, b):
    x, y = tr(a), tr(b)
    if x.sort() == RealS or y.sort() == RealS:
        xr, yr = trr(a), trr(b)
        # floor division of reals: x = q*y + r, 0 <= r < y for y > 0
        from . import nf
        key = ("rdiv", nf.key(CTX, xr), nf.key(CTX, yr))
        hit = CTX.div_cache.get(key)
        if hit is None:
            q = CTX.fresh("fdq", IntS)
            r = CTX.fresh("fdr", RealS)
            CTX.fact(z3.Implies(yr != 0, xr == z3.ToReal(q) * yr + r))
            CTX.fact(z3.Implies(yr > 0, z3.And(r >= 0, r < yr)))
            CTX.fact(z3.Implies(yr < 0, z3.And(r <= 0, r > yr)))
            hit = CTX.div_cache[key] = (q, r)
        q, r = hit
        return wrap(z3.ToReal(q)), wrap(r)
    if isinstance(a, int) and isinstance(b, int):
        return divmod(a, b)
    if CTX.py_division_checks and not CTX.known(y != 0) and CTX.branch(y == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    return CTX.int_divmod(x, y)


def sym_pow(a, b):
    if isinstance(b, SymNum):
        c = num_const(z3.simplify(b.e))
        if c is not None:
            b = int(c) if c.denominator == 1 else c
    if isinstance(b, float):
        b = Fraction(b)
    if isinstance(b, (int, Fraction)) and not isinstance(b, bool):
        f = Fraction(b)
        if f.denominator == 1:
            n = int(f)
            isint = isinstance(a, (int, SymInt)) and isinstance(b, int)
            if n == 0:
                return 1 if isint else 1.0
            if n > 0:
                r = a
                for _ in range(n - 1):
                    r = r * a
                if not isint and isinstance(r, SymInt):
                    r = wrap(z3.ToReal(r.e))
                return r
            r = sym_pow(a, -n)
            return wrap(z3.RealVal(1) / trr(r))
        if f.denominator == 2:
            s = sym_sqrt(a)
            return sym_pow(s, f.numerator)
    return wrap(POW(trr(a), trr(b)))


def sym_exp(x):
    if isinstance(x, Ext):
        if not z3.is_false(z3.simplify(x.p)):
            raise Unsupported("exp of +inf")
        return wrap(z3.If(x.n, z3.RealVal(0), EXP(x.fin)))
    if _isinf(x):
        return 0.0 if x < 0 else INF
    if not is_sym(x) and x == 0:
        return 1.0
    t = EXP(trr(x))
    CTX.fact(t > 0)
    return wrap(t)


def sym_log(x):
    if isinstance(x, Ext):
        raise Unsupported("log of extended real")
    if not is_sym(x) and x == 1:
        return 0.0
    if not is_sym(x) and x == 0:
        return -INF
    return wrap(LOG(trr(x)))


def sym_sqrt(x):
    if not is_sym(x) and x in (0, 1):
        return float(x)
    if not is_sym(x) and not isinstance(x, Fraction):
        import math

        r = math.isqrt(int(x)) if float(x).is_integer() and x >= 0 else None
        if r is not None and r * r == x:
            return float(r)
    xr = trr(x)
    t = SQRT(xr)
    CTX.fact(z3.Implies(xr >= 0, z3.And(t >= 0, t * t == xr)))
    return wrap(t)


def sym_floor(x):
    if isinstance(x, (int, SymInt)):
        return x
    t = tr(x)
    c = num_const(z3.simplify(t))
    if c is not None:
        return c.numerator // c.denominator
    return wrap(z3.ToInt(t))


def sym_ceil(x):
    if isinstance(x, (int, SymInt)):
        return x
    t = tr(x)
    c = num_const(z3.simplify(t))
    if c is not None:
        return -((-c.numerator) // c.denominator)
    return wrap(-z3.ToInt(-t))


def sym_trunc(x):
    if isinstance(x, (int, SymInt)):
        return x
    t = tr(x)
    c = num_const(z3.simplify(t))
    if c is not None:
        return int(c)
    if CTX.known(t >= 0):
        return wrap(z3.ToInt(t))
    return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


# ----------------------------------------------------------------------------
class Obligation:
    def __init__(self, name, status, backend, secs, detail=None):
        self.name, self.status, self.backend, self.secs, self.detail = name, status, backend, secs, detail


class Ctx:
    def __init__(self):
        self.obls = []
        self.timeout = int(os.environ.get("VERIF_Z3_MS", "10000"))
        self.solver_s = 0.0
        self.loopdb = {}
        self.py_division_checks = True
        self.spec = None
        self.np = None
        self.unsound_notes = []
        self.earlier = False
        self.muted = False  # an earlier use of the code, see prove.warm
        self.no_invariant = set()  # walker attributes without a known invariant: arbitrary values
        self.reset_path([])
        self.max_paths = 4000
        self.paths = 0
        self.inputs = {}

    # -- path state -----------------------------------------------------------
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.trail = []  # decisions taken: (value, forced)
        self.pc = []
        self.counter = {}
        self.serial = 0
        self.objects = {}  # label -> tracked object
        self.div_cache = {}
        self.div_hints = []
        self.divs = []  # (q, r, x, d): quotients that depend on generic indices
        self.loop_stack = []
        self.events = []
        self.mins = []
        self.nested = None
        self.solver = z3.Solver()
        self.solver.set("timeout", 3000)
        self.aggs = {}  # const name -> Agg
        self.agg_keys = {}
        self.positive = set()
        self.hints = []  # wishes for the values of counterexamples (no assumptions)
        self.pos_terms = []  # terms stated to be positive
        self.factset = set()
        self.keep = []
        self.scope_facts = []
        self.journal = None
        self.loops = []
        self.rng_log = []
        self.rngs = []
        self.condensed = []
        self.ghost = {}
        self.pathlog = []
        self.births = {}
        self.skolem = set()
        self.ns = ""  # decisions of the current sub-path (name space of its symbols)

    def fresh(self, name, sort):
        i = self.counter.get(name, 0)
        self.counter[name] = i + 1
        if self.loops:
            ks = list(self.loops)
            return z3.Function(f"{name}!{i}{self.ns}", *[IntS] * len(ks), sort)(*ks)
        return z3.Const(f"{name}!{i}{self.ns}", sort)

    def fresh_idx(self, name="g"):
        """generic index constant (never a function of enclosing indices)"""
        i = self.counter.get(name, 0)
        self.counter[name] = i + 1
        return z3.Const(f"{name}!{i}{self.ns}", IntS)

    def fresh_name(self, name):
        i = self.counter.get(name, 0)
        self.counter[name] = i + 1
        return f"{name}!{i}{self.ns}"

    def fresh_int(self, name="i"):
        return SymInt(self.fresh(name, IntS))

    def fresh_real(self, name="x"):
        return SymReal(self.fresh(name, RealS))

    def fresh_bool(self, name="b"):
        return SymBool(self.fresh(name, BoolS))

    def next_serial(self):
        self.serial += 1
        return self.serial

    # -- assumptions ----------------------------------------------------------
    def assume(self, c):
        c = tb(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def fact_positive(self, t):
        self.fact(t > 0)
        self.pos_terms.append(t)

    def fact(self, c):
        """instantiated universally valid (definitional) fact"""
        k = c.get_id()
        if k in self.factset:
            return
        self.factset.add(k)
        self.keep.append(c)
        if self.scope_facts:
            self.scope_facts[-1].append(c)
        self._add_fact(c)

    def _add_fact(self, c):
        self.pc.append(c)
        if not nonlinear(c):
            # feasibility checks leave non-linear facts out (over-approximation:
            # more paths, never fewer); proofs use all of them
            self.solver.add(c)

    def check_sat(self, extra, timeout=None):
        t0 = time.time()
        self.solver.push()
        for x in extra:
            self.solver.add(x)
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check()
        if timeout:
            self.solver.set("timeout", 3000)
        if r == z3.unknown:  # contradictory without the quantified facts?
            plain = [a for a in self.solver.assertions() if not quantified(a)]
            if len(plain) < len(self.solver.assertions()):
                q = z3.Solver()
                q.set("timeout", 1000)
                q.add(*plain)
                if q.check() == z3.unsat:
                    r = z3.unsat
        self.solver.pop()
        self.solver_s += time.time() - t0
        return r

    def known(self, c):
        """cheaply known to hold on this path"""
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self.check_sat([z3.Not(c)], 500) == z3.unsat

    def unique_value(self, e):
        t0 = time.time()
        if self.solver.check() != z3.sat:
            return None
        v = self.solver.model().eval(e, model_completion=True)
        self.solver_s += time.time() - t0
        if not z3.is_int_value(v):
            return None
        if self.check_sat([e != v], 1000) == z3.unsat:
            return v.as_long()
        return None

    # -- branching ------------------------------------------------------------
    def branch(self, c):
        c = tb(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        holder = self.nested if self.nested is not None else self
        pos = len(holder.trail)
        if pos < len(holder.prefix):
            v, forced = holder.prefix[pos]
        else:
            ft = self.check_sat([c])
            ff = self.check_sat([z3.Not(c)])
            if ft == z3.unsat and ff == z3.unsat:
                raise PathEnd()
            if ft == z3.unsat:
                v, forced = False, True
            elif ff == z3.unsat:
                v, forced = True, True
            else:
                v, forced = True, False
        holder.trail.append((v, forced))
        if not forced:
            lit = c if v else z3.Not(c)
            self.assume(lit)
            if holder is not self:
                holder.conds.append(lit)
                self.ns += "t" if v else "f"
        return v

    def choose(self, name, n=2):
        """non-deterministic choice 0..n-1 (all explored)"""
        for i in range(n - 1):
            if self.branch(self.fresh(f"choice_{name}", BoolS)):
                return i
        return n - 1

    # -- proving ----------------------------------------------------------------
    def rewrite(self, t):
        """replace values of an earlier use (see prove.warm) that this path knows to be equal to present ones"""
        if not self.earlier:
            return t
        subs = []

        def old(x):
            return x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(("e!", "w!", "earlier"))

        def collect(c):
            if z3.is_and(c):
                for q in c.children():
                    collect(q)
            elif z3.is_eq(c):
                a, b = c.children()
                if z3.is_app(a) and old(a) and not (z3.is_app(b) and old(b)):
                    subs.append((a, b))
                elif z3.is_app(b) and old(b):
                    subs.append((b, a))
        for c in self.pc:
            collect(c)
        return z3.substitute(t, *subs) if subs else t

    def prove(self, goal, timeout=None):
        from . import nf

        goal = self.rewrite(goal)
        r = nf.prove(self, goal, timeout)
        if r[0] != "proved" and r[1] != "evaluation" and self.saturate(goal):
            r = nf.prove(self, goal, timeout)
        if r[1] == "evaluation":
            return r
        if r[0] == "refuted":
            r = nf.refuted(self, *r[2])
        elif r[0] == "unknown":
            r = nf.refuted(self, goal, [], None)
        return r

    def saturate(self, goal):
        """instantiate universally valid facts (of generic indices and of minima) at
        the index terms of the goal, so that a counterexample is not due to a
        fact that was never instantiated"""
        from . import arrays, values

        ints = {}

        def walk(t, seen):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                return
            if z3.is_const(t) and t.sort() == IntS and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                ints[t.get_id()] = t
            for c in t.children():
                walk(c, seen)
        walk(goal, set())
        if not ints:
            return False
        n0 = len(self.pc)
        ts = list(ints.values())[:6]
        for m in list(self.mins):
            nd = len(arrays.flat_dims(m[1]))
            if nd == 1:
                for t in ts:
                    m[6]((SymInt(t),))
            elif nd <= 3 and len(ts) ** nd <= 64:
                import itertools
                for c in itertools.product(ts, repeat=nd):
                    m[6](tuple(SymInt(t) for t in c))
        gens = {}

        def gwalk(t, seen):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                return
            if z3.is_const(t) and t.sort() == IntS and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name()[:2] in ("k!", "g!", "s!"):
                gens[t.get_id()] = t
            for c in t.children():
                gwalk(c, seen)
        seen = set()
        for f in self.keep:
            gwalk(f, seen)
        for g in list(gens.values())[:12]:
            if g.get_id() in self.skolem:
                continue
            for t in ts:
                if not t.eq(g):
                    values.instantiate_facts(g, SymInt(t))
            if len(self.pc) - n0 > 600:
                break
        return len(self.pc) > n0

    def check(self, name, goal, detail=None):
        """a proof obligation: the path condition must imply goal"""
        if self.muted:
            return True
        t0 = time.time()
        st, backend, model = self.prove(tb(goal) if not isinstance(goal, z3.BoolRef) else goal)
        secs = time.time() - t0
        if st == "refuted" and self.no_invariant:
            st = "unknown"  # from a state that may be out of reach
        d = detail
        if st != "proved":
            d = {"detail": detail, "goal": str(z3.simplify(tb(goal)))[:1500], "model": model,
                 "path": [bool(v) for v, f in self.trail if not f], "log": list(self.pathlog)[-20:]}
            if self.loopdb and model:
                d["after_loops"] = sorted(self.loopdb)
        self.obls.append(Obligation(name, st, backend, secs, d))
        if st != "proved":
            pass
        return st == "proved"

    def check_eq(self, name, a, b, detail=None):
        return self.check(name, eq(a, b), detail)

    # -- integer division with hints ---------------------------------------------
    def hint_div(self, x, d, q, r):
        """ghost lemma (Euclidean division): x == d*q + r, 0 <= r < d  =>  x div d == q, x mod d == r.

        The premises are checked as obligations, the conclusion is then used for
        every later x // d and x % d on this path."""
        x, d, q, r = tr(x), tr(d), tr(q), tr(r)
        self.check("lemma.euclid", z3.And(x == d * q + r, r >= 0, r < d))
        self.div_hints.append((x, d, q, r))

    def with_divs(self, subs):
        """extend the substitution of generic indices by the quotients that then have a closed form"""
        if not self.divs:
            return subs
        from . import nf

        out = list(subs)
        for (q, r, x, d) in self.divs:
            if not any(nf.occurs(k, q) for k, _ in subs):
                continue
            x2, d2 = z3.substitute(x, *out), z3.substitute(d, *out)
            sp = nf.split_div(self, x2, d2)
            if sp is not None and self.known(z3.And(sp[1] >= 0, sp[1] < d2)):
                out += [(q, sp[0]), (r, sp[1])]
        return out

    def int_divmod(self, x, d):
        from . import nf

        kx, kd = nf.key(self, x), nf.key(self, d)
        if kd == nf.key(self, z3.IntVal(1)):
            return wrap(x), 0
        for (hx, hd, q, r) in self.div_hints:
            if nf.key(self, hd) == kd and nf.key(self, hx) == kx:
                return wrap(q), wrap(r)
        hit = self.div_cache.get((kx, kd))
        if hit is None:
            c = num_const(z3.simplify(d))
            if c is not None and c > 0:
                q, r = x / d, x % d
            else:
                sp = nf.split_div(self, x, d)
                if sp is not None and self.known(z3.And(sp[1] >= 0, sp[1] < d)):
                    return wrap(sp[0]), wrap(sp[1])
                q = self.fresh("q", IntS)
                r = self.fresh("r", IntS)
                if self.loops:
                    self.divs.append((q, r, x, d))
                self.fact(z3.Implies(d != 0, x == d * q + r))
                self.fact(z3.Implies(d > 0, z3.And(r >= 0, r < d)))
                self.fact(z3.Implies(d < 0, z3.And(r <= 0, r > d)))
                self.fact(z3.Implies(z3.And(d > 0, x >= 0), q >= 0))
                self.fact(z3.Implies(z3.And(d > 0, x >= 0, x < d), z3.And(q == 0, r == x)))
            hit = self.div_cache[(kx, kd)] = (q, r)
        return wrap(hit[0]), wrap(hit[1])

    # -- write journal -----------------------------------------------------------
    def birth(self, obj):
        b = getattr(obj, "_birth", None) if not isinstance(obj, type) else 0
        if isinstance(b, int):
            return b
        r = self.births.get(id(obj))
        return r[1] if r else 0

    def born(self, obj):
        self.births[id(obj)] = (obj, self.next_serial())

    def note(self, obj, slot, undo):
        """called before every mutation: slot of obj is about to change"""
        sc = self.nested
        if sc is not None and sc.pure and self.birth(obj) <= sc.serial0:
            raise Unsupported("side effect inside a comprehension over a symbolic sequence")
        if self.journal is not None:
            self.journal.append((obj, slot, undo))

    def event(self, *ev):
        if self.nested is not None and self.nested.pure:
            raise Unsupported("event inside a comprehension over a symbolic sequence")
        self.events.append(ev)


_nl = {}


def nonlinear(t):
    k = t.get_id()
    if k in _nl and _nl[k][0].eq(t):
        return _nl[k][1]
    r = False
    if z3.is_app(t):
        if t.decl().kind() in (z3.Z3_OP_MUL,):
            if sum(1 for c in t.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                r = True
        elif t.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            if not (z3.is_rational_value(t.arg(1)) or z3.is_int_value(t.arg(1))):
                r = True
        if not r:
            r = any(nonlinear(c) for c in t.children())
    elif z3.is_quantifier(t):
        r = nonlinear(t.body())
    _nl[k] = (t, r)
    return r


class Scope:
    """sub-exploration: generic evaluation of comprehension elements / loop bodies"""

    def __init__(self, prefix, parent, pure, serial0):
        self.prefix, self.parent, self.pure, self.serial0 = prefix, parent, pure, serial0
        self.trail = []
        self.conds = []


def quantified(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return False


def generic_eval(fn, guard, pure=True, limit=300):
    high = {}
    try:
        return _generic_eval(fn, guard, pure, limit, high)
    finally:
        for q, m in high.items():
            if m > CTX.counter.get(q, 0):
                CTX.counter[q] = m


def _generic_eval(fn, guard, pure, limit, high):
    """evaluate fn() for generic (universally quantified) constants satisfying
    guard; returns [(condition, kind, value)] over all sub-paths.  Facts
    found on the way are definitional and are kept."""
    ctx = CTX
    outcomes = []
    stack = [[]]
    outer = ctx.nested
    while stack:
        prefix = stack.pop()
        sc = Scope(prefix, outer, pure, ctx.serial)
        counter0 = dict(ctx.counter)
        n_pc = len(ctx.pc)
        ctx.solver.push()
        ctx.scope_facts.append([])
        ctx.nested = sc
        dead = False
        v = None
        ns0 = ctx.ns
        try:
            for g in guard:
                ctx.assume(g)
            try:
                v = ("value", fn())
            except PathEnd:
                dead = True
            except Stop:
                raise
            except Exception as e:  # exception of the code under verification
                v = ("raise", e)
                if ctx.check_sat([], 3000) == z3.unsat:  # not on any real path
                    dead = True
        finally:
            ctx.nested = outer
            ctx.ns = ns0
            facts = ctx.scope_facts.pop()
            del ctx.pc[n_pc:]
            ctx.solver.pop()
            for f in facts:
                ctx._add_fact(f)
            if ctx.scope_facts:
                ctx.scope_facts[-1].extend(facts)
        for i in range(len(prefix), len(sc.trail)):
            if sc.trail[i][1] is False:
                stack.append(sc.trail[:i] + [(not sc.trail[i][0], False)])
        if not dead:
            outcomes.append((z3.And(*sc.conds) if sc.conds else z3.BoolVal(True), v[0], v[1]))
        for q, m in ctx.counter.items():
            if m > high.get(q, 0):
                high[q] = m
        if stack:
            ctx.counter = counter0
        if len(outcomes) > limit:
            raise Unsupported("too many sub-paths in generic evaluation")
    return outcomes


def merge(outcomes):
    """merge values of sub-paths into one value"""
    if not outcomes:
        raise PathEnd()
    v = outcomes[-1][2]
    for c, _, x in reversed(outcomes[:-1]):
        v = ite(c, x, v)
    return v


def eq(a, b):
    """z3 equality of two values"""
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return tb(a) == tb(b)
    if isinstance(a, Ext) or isinstance(b, Ext) or _isinf(a) or _isinf(b):
        x, y = Ext.of(a), Ext.of(b)
        return z3.And(x.p == y.p, x.n == y.n, z3.Implies(z3.And(z3.Not(x.p), z3.Not(x.n)), x.fin == y.fin))
    if not (_other_ok(a) or isinstance(a, z3.ArithRef)) or not (_other_ok(b) or isinstance(b, z3.ArithRef)):
        if a is b or (type(a) is type(b) and not hasattr(a, "_is_symarray") and a == b):
            return z3.BoolVal(True)
        return z3.BoolVal(False)
    x, y = _coerce(a, b)
    return x == y


CTX = Ctx()


def explore(fn):
    """run fn on every feasible path"""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        CTX.reset_path(prefix)
        n += 1
        CTX.paths += 1
        if n > CTX.max_paths:
            raise Unsupported("too many paths")
        try:
            fn()
        except PathEnd:
            pass
        t = CTX.trail
        for i in range(len(prefix), len(t)):
            if not t[i][1]:
                stack.append(t[:i] + [(not t[i][0], False)])
    return n
