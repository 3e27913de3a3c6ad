"""Normal forms of real/integer terms and the proof procedure.

A term becomes a polynomial with rational coefficients over *atoms*:
uninterpreted constants and applications (arguments normalised), exp / log /
sqrt with their algebraic laws, 1/p, indicators [p<0], [p==0], [b] of
conditions (ite(c,a,b) = [c]*a + (1-[c])*b), and finite sums with symbolic
bounds (linear, closed under pulling out constants and [j==e] collapse).
Equal normal forms imply equal values wherever the terms are defined.
"""
import math
import time
from fractions import Fraction

import z3

from . import core

_ids = {}      # key -> id
_keys = []     # id -> key
_info = []     # id -> dict(z3=term or None, bvs=frozenset, ind=bool, h=int)
ONE = Fraction(1)


def atom(key, bvs=frozenset(), term=None, ind=False, h=0):
    i = _ids.get(key)
    if i is None:
        i = len(_keys)
        _ids[key] = i
        _keys.append(key)
        _info.append({"bvs": bvs, "z3": term, "ind": ind, "h": h})
    return i


class Poly:
    __slots__ = ("d", "_k")

    def __init__(self, d):
        self.d = d
        self._k = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def of_atom(i, e=1):
        return Poly({((i, e),): ONE})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), Fraction(0))

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def neg(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + o.neg()

    def scale(self, c):
        return Poly({m: v * c for m, v in self.d.items()}) if c else Poly({})

    def __mul__(self, o):
        if len(self.d) * len(o.d) > 20000:
            raise core.Unsupported("polynomial too large")
        r = Poly({})
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                p = mono_mul(m1, m2)
                if isinstance(p, tuple):
                    v = d.get(p, 0) + c1 * c2
                    if v:
                        d[p] = v
                    else:
                        d.pop(p, None)
                else:
                    r = r + p.scale(c1 * c2)
        return Poly(d) + r

    def pow(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s

    def bvs(self):
        s = frozenset()
        for a in self.atoms():
            s |= _info[a]["bvs"]
        return s

    def height(self):
        return max([_info[a]["h"] for a in self.atoms()], default=0)

    def __repr__(self):
        return show(self)


def from_key(k):
    return Poly(dict(k))


def show_atom(i):
    k = _keys[i]
    t = k[0]
    if t == "c":
        return k[1]
    if t == "f":
        return f"{k[1]}({', '.join(show(from_key(x)) for x in k[2:])})"
    if t in ("inv", "exp", "log", "sqrt", "floor"):
        return f"{t}({show(from_key(k[1]))})"
    if t in ("lt", "eq"):
        return f"[{show(from_key(k[1]))}{'<' if t == 'lt' else '=='}0]"
    if t == "sum":
        return f"SUM_{k[1]}<{show(from_key(k[2]))}({show(from_key(k[3]))})"
    return str(k)


def show(p):
    if not p.d:
        return "0"
    out = []
    for m, c in sorted(p.d.items()):
        s = "*".join(show_atom(a) + (f"^{e}" if e != 1 else "") for a, e in m)
        out.append((f"{c}*" if c != 1 or not s else "") + s if s else str(c))
    return " + ".join(out)


def mono_mul(m1, m2):
    """product of monomials; a tuple, or a Poly when a rewrite applies"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    redo = False
    nexp = sum(1 for a, e in m1 if _keys[a][0] == "exp")
    for a, e in m2:
        if _keys[a][0] == "exp":
            nexp += 1
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    for a, e in d.items():
        k = _keys[a][0]
        if _info[a]["ind"] and e != 1:
            d[a] = 1
        elif k == "sqrt" and (e >= 2 or e <= -2):
            redo = True
        elif k == "inv" and e < 0:
            redo = True
        elif k == "exp" and e != 1:
            redo = True
    if nexp > 1:
        redo = True
    if not redo:
        return tuple(sorted(d.items()))
    r = Poly.const(1)
    ex = Poly({})
    plain = []
    for a, e in sorted(d.items()):
        k = _keys[a]
        if k[0] == "exp":
            ex = ex + from_key(k[1]).scale(Fraction(e))
        elif k[0] == "sqrt" and (e >= 2 or e <= -2):
            half, rem = (e // 2, e % 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            p = from_key(k[1])
            r = r * (p.pow(half) if half > 0 else inv(p).pow(-half))
            if rem:
                plain.append((a, rem))
        elif k[0] == "inv" and e < 0:
            r = r * from_key(k[1]).pow(-e)
        else:
            plain.append((a, e))
    base = Poly({tuple(plain): ONE})
    if ex.d:
        base = base * Poly.of_atom(exp_atom(ex)) if not _has_exp(plain) else base
    return r * base if r.key() != (((), ONE),) else base


def _has_exp(plain):
    return any(_keys[a][0] == "exp" for a, e in plain)


def exp_atom(p):
    return atom(("exp", p.key()), p.bvs(), None, h=p.height())


def nf_exp(p):
    if not p.d:
        return Poly.const(1)
    # exp(k*log(x) + rest) = x^k * exp(rest) for integer k
    out = Poly.const(1)
    rest = {}
    for m, c in p.d.items():
        if len(m) == 1 and _keys[m[0][0]][0] == "log" and m[0][1] == 1 and c.denominator == 1:
            q = from_key(_keys[m[0][0]][1])
            out = out * (q.pow(int(c)) if c > 0 else inv(q).pow(int(-c)))
        else:
            rest[m] = c
    if rest:
        out = out * Poly.of_atom(exp_atom(Poly(rest)))
    return out


def inv(p):
    if p.is_const():
        c = p.cval()
        if c == 0:
            return Poly.of_atom(atom(("inv", p.key())))
        return Poly.const(1 / c)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = Poly.const(1 / c)
        for a, e in m:
            k = _keys[a]
            if _info[a]["ind"]:
                r = r * Poly.of_atom(atom(("inv", Poly.of_atom(a).key()), _info[a]["bvs"], h=_info[a]["h"]))
            elif k[0] == "exp":
                r = r * nf_exp(from_key(k[1]).scale(Fraction(-e)))
            elif k[0] == "inv":
                r = r * from_key(k[1]).pow(e)
            else:
                r = r * Poly({((a, -e),): ONE})
        return r
    # factor out the common monomial content and the leading coefficient
    common = None
    for m in p.d:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm and e > 0 and dm[a] > 0}
    common = {a: e for a, e in (common or {}).items() if e > 0 and not _info[a]["ind"] and _keys[a][0] != "exp"}
    r = Poly.const(1)
    if common:
        cm = Poly({tuple(sorted(common.items())): ONE})
        icm = inv(cm)
        p = p * icm
        r = icm
    lc = p.d[min(p.d)]
    p = p.scale(1 / lc)
    return r.scale(1 / lc) * Poly.of_atom(atom(("inv", p.key()), p.bvs(), h=p.height()))


def _positive(ctx, a):
    """is the atom known to be positive on this path?"""
    k = _keys[a]
    if k[0] == "exp":
        return True
    if k[0] == "c" and k[1] == "pi":
        return True
    if k[0] == "sqrt":
        q = from_key(k[1])
        return all(c > 0 and all(_positive(ctx, b) for b, _ in m) for m, c in q.d.items())
    if k[0] == "sum" and ctx is not None and a in ctx.positive:
        return True
    if ctx is None:
        return False
    if a in ctx.positive:
        return True
    t = _info[a]["z3"]
    if t is None:
        return False
    if ctx.known(t > 0):
        ctx.positive.add(a)
        return True
    return False


def isqrt_frac(c):
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def nf_sqrt(ctx, p):
    if p.is_const():
        c = p.cval()
        if c >= 0:
            r = isqrt_frac(c)
            if r is not None:
                return Poly.const(r)
            if c.denominator != 1:
                # sqrt(n/d) = sqrt(n*d)/d
                return nf_sqrt(ctx, Poly.const(c.numerator * c.denominator)).scale(Fraction(1, c.denominator))
            n = c.numerator
            s = 1
            f = 2
            while f * f <= n and f < 1000:
                while n % (f * f) == 0:
                    n //= f * f
                    s *= f
                f += 1
            q = Poly.const(n)
            return Poly.of_atom(atom(("sqrt", q.key()))).scale(Fraction(s))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c > 0 and all(_positive(ctx, a) for a, e in m):
            r = nf_sqrt(ctx, Poly.const(c)) if c != 1 else Poly.const(1)
            for a, e in m:
                if _keys[a][0] == "exp":
                    r = r * nf_exp(from_key(_keys[a][1]).scale(Fraction(e, 2)))
                    continue
                h, rem = divmod(e, 2)
                if h:
                    r = r * (Poly.of_atom(a).pow(h) if h > 0 else inv(Poly.of_atom(a)).pow(-h))
                if rem:
                    q = Poly.of_atom(a)
                    r = r * Poly.of_atom(atom(("sqrt", q.key()), q.bvs(), h=q.height()))
            return r
    return Poly.of_atom(atom(("sqrt", p.key()), p.bvs(), h=p.height()))


def pos_poly(ctx, q):
    """+1 / -1: the polynomial q / -q is stated to be positive on this path (up to a positive factor), else 0"""
    if ctx is None or not ctx.pos_terms:
        return 0
    ks = getattr(ctx, "_pos_keys", None)
    if ks is None or ks[0] != len(ctx.pos_terms) or ks[1] is not ctx.pos_terms:
        done = set()
        ctx._pos_keys = (len(ctx.pos_terms), ctx.pos_terms, done)
        for t in ctx.pos_terms:
            x = converter(ctx).term(t)
            if x.d:
                done.add(x.scale(1 / abs(x.d[min(x.d)])).key())
    ks = ctx._pos_keys[2]
    if not q.d:
        return 0
    q = q.scale(1 / abs(q.d[min(q.d)]))
    if q.key() in ks:
        return 1
    return -1 if q.neg().key() in ks else 0


def nf_log(ctx, p):
    if p.is_const() and p.cval() == 1:
        return Poly({})
    if ctx is not None and ctx.pos_terms and p.d:
        # log(x / q) = log x - log q for q > 0
        for a, e in min(p.d):
            if _keys[a][0] == "inv" and all(dict(m).get(a, 0) == e for m in p.d):
                q = from_key(_keys[a][1])
                sg = pos_poly(ctx, q)
                if sg:
                    rest = Poly({tuple(x for x in m if x[0] != a): c * (sg if e % 2 else 1) for m, c in p.d.items()})
                    return nf_log(ctx, rest) - nf_log(ctx, q.scale(sg)).scale(Fraction(e))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c > 0:
            unknown = []
            r = Poly({})

            def add_log(x):
                nonlocal r
                r = r + log_atom(Poly.of_atom(x[0])).scale(Fraction(x[1]))
                return True
            for a, e in m:
                if _keys[a][0] == "exp":
                    r = r + from_key(_keys[a][1]).scale(Fraction(e))
                elif _positive(ctx, a):
                    r = r + log_atom(Poly.of_atom(a)).scale(Fraction(e))
                else:
                    unknown.append((a, e))
            unknown = [x for x in unknown if not (pos_poly(ctx, Poly.of_atom(x[0])) == 1 and add_log(x))]
            if len(unknown) == 1 and unknown[0][1] == 1:
                # log(c*x) = log c + log x for c > 0 (both defined or both not)
                r = r + log_atom(Poly.of_atom(unknown[0][0]))
                unknown = []
            if not unknown:
                if c != 1:
                    r = r + log_atom(Poly.const(c))
                return r
    return log_atom(p)


def log_atom(p):
    if p.is_const() and p.cval() == 1:
        return Poly({})
    if p.is_const():
        c = p.cval()
        if c.denominator != 1:
            return log_atom(Poly.const(c.numerator)) - log_atom(Poly.const(c.denominator))
    elif len(p.d) > 1:
        c = abs(p.d[min(p.d)])
        if c != 1:  # log(c*x) = log c + log x for c > 0
            return log_atom(Poly.const(c)) + log_atom(p.scale(1 / c))
    return Poly.of_atom(atom(("log", p.key()), p.bvs(), h=p.height()))


# ----------------------------------------------------------------------------
def _lead(p):
    ms = [m for m in p.d if m]
    return min(ms) if ms else None


def ind_lt0(p, isint):
    """indicator of p < 0"""
    if p.is_const():
        return Poly.const(1 if p.cval() < 0 else 0)
    if isint:
        # clear denominators
        l = 1
        for c in p.d.values():
            l = l * c.denominator // math.gcd(l, c.denominator)
        p = p.scale(Fraction(l))
        lead = p.d[_lead(p)]
        if lead < 0:
            q = p.neg() - Poly.const(1)
            return Poly.const(1) - ind_lt0(q, True)
        a = atom(("ilt", p.key()), p.bvs(), None, True, h=p.height())
        return Poly.of_atom(a)
    lead = p.d[_lead(p)]
    p = p.scale(1 / abs(lead))
    if lead < 0:
        q = p.neg()
        return Poly.const(1) - ind_lt0(q, False) - ind_eq0(q)
    return Poly.of_atom(atom(("lt", p.key()), p.bvs(), None, True, h=p.height()))


def ind_eq0(p):
    if p.is_const():
        return Poly.const(1 if p.cval() == 0 else 0)
    lead = p.d[_lead(p)]
    p = p.scale(1 / lead)
    return Poly.of_atom(atom(("eq", p.key()), p.bvs(), None, True, h=p.height()))


_cache = {}
_keep = []


class NF:
    """converter bound to a context (for aggregates and positivity)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.cache = {}

    def term(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self._term(t)
            self.cache[k] = r
            _keep.append(t)
        return r

    def _term(self, t):
        c = core.num_const(t)
        if c is not None:
            return Poly.const(c)
        d = t.decl()
        kind = d.kind()
        ch = t.children()
        if kind == z3.Z3_OP_ADD:
            r = Poly({})
            for x in ch:
                r = r + self.term(x)
            return r
        if kind == z3.Z3_OP_SUB:
            r = self.term(ch[0])
            for x in ch[1:]:
                r = r - self.term(x)
            return r
        if kind == z3.Z3_OP_UMINUS:
            return self.term(ch[0]).neg()
        if kind == z3.Z3_OP_MUL:
            r = Poly.const(1)
            for x in ch:
                r = r * self.term(x)
            return r
        if kind == z3.Z3_OP_DIV:
            return self.term(ch[0]) * inv(self.term(ch[1]))
        if kind == z3.Z3_OP_TO_REAL:
            return self.term(ch[0])
        if kind == z3.Z3_OP_ITE:
            c = self.cond(ch[0])
            if c.is_const():
                return self.term(ch[1]) if c.cval() == 1 else self.term(ch[2])
            a, b = self.term(ch[1]), self.term(ch[2])
            return c * (a - b) + b
        if kind == z3.Z3_OP_TO_INT:
            p = self.term(ch[0])
            a = atom(("floor", p.key()), p.bvs(), t, h=p.height())
            return Poly.of_atom(a)
        if kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            p, q = self.term(ch[0]), self.term(ch[1])
            a = atom(("idiv" if kind == z3.Z3_OP_IDIV else "imod", p.key(), q.key()), p.bvs() | q.bvs(), t,
                     h=max(p.height(), q.height()))
            return Poly.of_atom(a)
        if kind == z3.Z3_OP_POWER:
            e = core.num_const(ch[1])
            if e is not None and e.denominator == 1:
                p = self.term(ch[0])
                return p.pow(int(e)) if e >= 0 else inv(p).pow(int(-e))
        if kind == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            if n == "exp":
                return nf_exp(self.term(ch[0]))
            if n == "sqrt":
                return nf_sqrt(self.ctx, self.term(ch[0]))
            if n == "log":
                return nf_log(self.ctx, self.term(ch[0]))
            ag = self.ctx.aggs.get(n) if self.ctx is not None else None
            if ag is not None:
                return self.agg(ag, ch)
            if not ch:
                b = frozenset([n]) if n.startswith("bv!") else frozenset()
                return Poly.of_atom(atom(("c", n), b, t))
            ps = [self.term(x) if x.sort() in (core.IntS, core.RealS) else self.cond(x) if x.sort() == core.BoolS
                  else None for x in ch]
            if any(p is None for p in ps):
                ks = tuple(p.key() if p is not None else ("s", x.sexpr()) for p, x in zip(ps, ch))
            else:
                ks = tuple(p.key() for p in ps)
            b = frozenset()
            h = 0
            for p in ps:
                if p is not None:
                    b |= p.bvs()
                    h = max(h, p.height())
            return Poly.of_atom(atom(("f", n) + ks, b, t, h=h))
        # anything else: opaque
        return Poly.of_atom(atom(("o", t.sexpr()), frozenset(), t))

    # -- booleans as 0/1 polynomials ------------------------------------------
    def cond(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self._cond(t)
            self.cache[k] = r
            _keep.append(t)
        return r

    def _cond(self, t):
        if z3.is_true(t):
            return Poly.const(1)
        if z3.is_false(t):
            return Poly.const(0)
        kind = t.decl().kind()
        ch = t.children()
        one = Poly.const(1)
        if kind == z3.Z3_OP_NOT:
            return one - self.cond(ch[0])
        if kind == z3.Z3_OP_AND:
            r = one
            for x in ch:
                r = r * self.cond(x)
            return r
        if kind == z3.Z3_OP_OR:
            r = one
            for x in ch:
                r = r * (one - self.cond(x))
            return one - r
        if kind == z3.Z3_OP_IMPLIES:
            return one - self.cond(ch[0]) * (one - self.cond(ch[1]))
        if kind == z3.Z3_OP_ITE:
            c, a, b = (self.cond(x) for x in ch)
            return c * (a - b) + b
        if kind == z3.Z3_OP_XOR:
            a, b = self.cond(ch[0]), self.cond(ch[1])
            return a + b - (a * b).scale(Fraction(2))
        if kind in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and ch[0].sort() == core.BoolS:
            a, b = self.cond(ch[0]), self.cond(ch[1])
            x = a + b - (a * b).scale(Fraction(2))
            return x if kind == z3.Z3_OP_DISTINCT else one - x
        if kind in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and ch[0].sort() in (core.IntS, core.RealS):
            e = ind_eq0(self.term(ch[0]) - self.term(ch[1]))
            return e if kind == z3.Z3_OP_EQ else one - e
        if kind in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = self.term(ch[0]), self.term(ch[1])
            isint = ch[0].sort() == core.IntS
            if kind == z3.Z3_OP_LT:
                return ind_lt0(a - b, isint)
            if kind == z3.Z3_OP_GT:
                return ind_lt0(b - a, isint)
            if kind == z3.Z3_OP_LE:
                return one - ind_lt0(b - a, isint)
            return one - ind_lt0(a - b, isint)
        if kind == z3.Z3_OP_UNINTERPRETED:
            ps = [self.term(x) if x.sort() in (core.IntS, core.RealS) else None for x in ch]
            ks = tuple(p.key() if p is not None else ("s", x.sexpr()) for p, x in zip(ps, ch))
            b = frozenset()
            h = 0
            for p in ps:
                if p is not None:
                    b |= p.bvs()
                    h = max(h, p.height())
            return Poly.of_atom(atom(("b", t.decl().name()) + ks, b, t, True, h=h))
        return Poly.of_atom(atom(("bo", t.sexpr()), frozenset(), t, True))

    # -- aggregates -------------------------------------------------------------
    def agg(self, ag, args):
        body = ag.body
        n = ag.n
        if ag.params:
            sub = list(zip(ag.params, args))
            body = z3.substitute(body, *sub)
            n = z3.substitute(n, *sub)
        p0 = self.term(body)
        np_ = self.term(n)
        h = free_index(p0.height() + 1, p0.bvs() | np_.bvs())
        bv = z3.Int(f"bv!{h}")
        p = self.term(z3.substitute(body, (ag.var, bv)))
        return sum_poly(p, f"bv!{h}", bv, np_, h)


def free_index(h, avoid):
    """smallest index >= h whose bound variable does not occur free"""
    while f"bv!{h}" in avoid:
        h += 1
    return h


def bv_poly(h):
    nm = f"bv!{h}"
    return Poly.of_atom(atom(("c", nm), frozenset([nm]), z3.Int(nm)))


def subst_bv(p, bvname, q):
    """substitute bound variable by polynomial q inside p (rebuild)"""
    r = Poly({})
    for m, c in p.d.items():
        t = Poly.const(c)
        for a, e in m:
            b = subst_atom(a, bvname, q)
            t = t * (b.pow(e) if e > 0 else inv(b).pow(-e))
        r = r + t
    return r


def subst_atom(a, bvname, q):
    if bvname not in _info[a]["bvs"]:
        return Poly.of_atom(a)
    k = _keys[a]
    if k[0] == "c":
        return q if k[1] == bvname else Poly.of_atom(a)

    def s(key):
        return subst_bv(from_key(key), bvname, q)

    if k[0] == "exp":
        return nf_exp(s(k[1]))
    if k[0] == "inv":
        return inv(s(k[1]))
    if k[0] in ("lt",):
        return ind_lt0(s(k[1]), False)
    if k[0] == "ilt":
        return ind_lt0(s(k[1]), True)
    if k[0] == "eq":
        return ind_eq0(s(k[1]))
    if k[0] in ("sqrt", "log", "floor"):
        p = s(k[1])
        if k[0] == "sqrt":
            return nf_sqrt(None, p)
        if k[0] == "log":
            return nf_log(None, p)
        return Poly.of_atom(atom((k[0], p.key()), p.bvs(), h=p.height()))
    if k[0] in ("f", "b"):
        ps = [s(x) if not (len(x) == 2 and x[0] == "s") else None for x in k[2:]]
        ks = tuple(p.key() if p is not None else x for p, x in zip(ps, k[2:]))
        b = frozenset()
        h = 0
        for p in ps:
            if p is not None:
                b |= p.bvs()
                h = max(h, p.height())
        return Poly.of_atom(atom((k[0], k[1]) + ks, b, None, k[0] == "b", h=h))
    if k[0] in ("idiv", "imod"):
        p1, p2 = s(k[1]), s(k[2])
        return Poly.of_atom(atom((k[0], p1.key(), p2.key()), p1.bvs() | p2.bvs(), h=max(p1.height(), p2.height())))
    if k[0] == "sum":
        h, nm, b1 = int(k[1].split("!")[1]), k[1], from_key(k[3])
        if nm in q.bvs():  # avoid capture: rename the inner bound variable first
            h = free_index(max(b1.height(), q.height(), h) + 1, q.bvs() | b1.bvs() | _info[a]["bvs"])
            b1 = subst_bv(b1, nm, bv_poly(h))
            nm = f"bv!{h}"
        return sum_poly(subst_bv(b1, bvname, q), nm, None, s(k[2]), h)
    raise core.Unsupported("substitution in " + str(k[0]))


def sum_poly(p, bvname, bv, n, h):
    """Sum_{bv=0}^{n-1} p"""
    if n.is_const() and n.cval() <= 0:
        return Poly({})
    out = Poly({})
    for m, c in p.d.items():
        inside = []
        outside = Poly.const(c)
        for a, e in m:
            if bvname not in _info[a]["bvs"]:
                outside = outside * Poly({((a, e),): ONE})
            elif _keys[a][0] == "exp":
                arg = from_key(_keys[a][1])
                pi = Poly({mm: cc for mm, cc in arg.d.items() if any(bvname in _info[b]["bvs"] for b, _ in mm)})
                po = arg - pi
                outside = outside * nf_exp(po.scale(Fraction(e)))
                inside.append((exp_atom(pi.scale(Fraction(e))), 1))
            else:
                inside.append((a, e))
        if not inside:
            out = out + outside * n
            continue
        # collapse [bv == e] * g(bv)
        done = False
        for a, e in inside:
            k = _keys[a]
            if k[0] == "eq":
                q = from_key(k[1])
                lin = [(mm, cc) for mm, cc in q.d.items() if any(bvname in _info[b]["bvs"] for b, _ in mm)]
                if len(lin) == 1 and abs(lin[0][1]) == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1 \
                        and _keys[lin[0][0][0][0]] == ("c", bvname):
                    cc = lin[0][1]
                    sol = (Poly(dict(lin)) - q).scale(1 / cc)
                    rest = Poly({tuple(sorted((b, f) for b, f in inside if b != a)): ONE})
                    g = subst_bv(rest, bvname, sol)
                    inr = (Poly.const(1) - ind_lt0(sol, True)) * ind_lt0(sol - n, True)
                    out = out + outside * g * inr
                    done = True
                    break
        if done:
            continue
        body = Poly({tuple(sorted(inside)): ONE})
        hh = free_index(body.height() + 1, (body.bvs() - {bvname}) | n.bvs())
        if hh != h:  # canonical name of the bound variable
            nm = f"bv!{hh}"
            renamed = subst_bv(body, bvname, bv_poly(hh))
            if len(renamed.d) == 1 and list(renamed.d.values()) == [ONE] and renamed.height() < hh:
                body, bvname_, h_ = renamed, nm, hh
            else:
                bvname_, h_ = bvname, max(h, body.height() + 1)
        else:
            bvname_, h_ = bvname, h
        bvs = (body.bvs() | n.bvs()) - {bvname_}
        a = atom(("sum", bvname_, n.key(), body.key()), bvs, None, h=h_)
        out = out + outside * Poly.of_atom(a)
    return out


# ----------------------------------------------------------------------------
def converter(ctx):
    c = getattr(ctx, "_nfc", None)
    if c is None or ctx._nfc_gen != id(ctx.aggs):
        c = ctx._nfc = NF(ctx)
        ctx._nfc_gen = id(ctx.aggs)
    return c


def key(ctx, t):
    return converter(ctx).term(t).key()


def poly(ctx, t):
    return converter(ctx).term(t)


def is_zero(p):
    """is the polynomial with inverses identically zero?"""
    for _ in range(10):
        if not p.d:
            return True
        invs = {}
        for m in p.d:
            for a, e in m:
                if _keys[a][0] == "inv" and e > 0:
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            break
        # outermost first: choose the inv whose argument does not occur inside other chosen ones
        a = max(invs, key=lambda x: len(_keys[x][1]))
        emax = invs[a]
        q = from_key(_keys[a][1])
        r = Poly({})
        for m, c in p.d.items():
            e = 0
            rest = []
            for b, f in m:
                if b == a:
                    e = f
                else:
                    rest.append((b, f))
            r = r + Poly({tuple(rest): c}) * q.pow(emax - e)
        p = r
    return not p.d


def diff(p, aid):
    """partial derivative of a polynomial normal form with respect to an atom"""
    r = Poly({})
    for m, c in p.d.items():
        for j, (a, e) in enumerate(m):
            da = diff_atom(a, aid)
            if not da.d:
                continue
            rest = Poly({tuple(m[:j] + (((a, e - 1),) if e != 1 else ()) + m[j + 1:]): c * e}) if _keys[a][0] != "exp" \
                else Poly({m: c * e})
            r = r + rest * da
    return r


def diff_atom(a, aid):
    """derivative of atom (for exp: derivative of its argument)"""
    if a == aid:
        return Poly.const(1)
    k = _keys[a]
    if k[0] == "exp":
        return diff(from_key(k[1]), aid)
    if k[0] == "c":
        return Poly({})
    if k[0] == "inv":
        q = from_key(k[1])
        return diff(q, aid).neg() * Poly.of_atom(a).pow(2)
    if k[0] == "log":
        q = from_key(k[1])
        return diff(q, aid) * inv(q)
    if k[0] == "sqrt":
        q = from_key(k[1])
        return diff(q, aid) * inv(Poly.of_atom(a)).scale(Fraction(1, 2))
    if aid in _deep_atoms(a):
        raise core.Unsupported("derivative of " + show_atom(a))
    return Poly({})


def _deep_atoms(a):
    out = set()
    k = _keys[a]

    def rec(x):
        if isinstance(x, tuple):
            for y in x:
                rec(y)
        elif isinstance(x, int) and not isinstance(x, bool):
            out.add(x)

    rec(k[1:])
    return out


# ----------------------------------------------------------------------------
def collect_ites(t, acc, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        acc.append(t.arg(0))
    for c in t.children():
        collect_ites(c, acc, seen)


def eq_subst(ctx, extra):
    """substitutions var := term from equalities of the path condition"""
    subs = []
    used = set()
    for c in list(ctx.pc) + list(extra):
        if z3.is_and(c):
            parts = c.children()
        else:
            parts = [c]
        for e in parts:
            if z3.is_eq(e):
                a, b = e.arg(0), e.arg(1)
                if a.sort() not in (core.IntS, core.RealS):
                    continue
                for x, y in ((a, b), (b, a)):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in ctx.aggs \
                            and x.get_id() not in used and not occurs(x, y) and not (x.decl().name() == "pi"):
                        y2 = z3.substitute(y, *subs) if subs else y
                        if occurs(x, y2):
                            continue
                        subs = [(v, z3.substitute(w, (x, y2))) for v, w in subs]
                        subs.append((x, y2))
                        used.add(x.get_id())
                        break
    return subs


def occurs(x, t):
    stack = [t]
    seen = set()
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.eq(x):
            return True
        stack.extend(u.children())
    return False


def has_agg(ctx, t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().name() in ctx.aggs:
        return True
    return any(has_agg(ctx, c, seen) for c in t.children())


def prove_eq_nf(ctx, a, b, extra, depth=0):
    nfc = converter(ctx)
    try:
        d = nfc.term(a) - nfc.term(b)
        if is_zero(d):
            return True
    except core.Unsupported:
        return False
    if depth > 7:
        return False
    # case split on top level ite conditions
    acc = []
    seen = set()
    collect_ites(a, acc, seen)
    collect_ites(b, acc, seen)
    cond = None
    for c in acc:
        s = z3.simplify(c)
        if not (z3.is_true(s) or z3.is_false(s)) and not has_bv(c):
            cond = c
            break
    if cond is not None:
        for val in (True, False):
            lit = cond if val else z3.Not(cond)
            if ctx.check_sat(extra + [lit]) == z3.unsat:
                continue
            a2 = simp(z3.substitute(a, (cond, z3.BoolVal(val))))
            b2 = simp(z3.substitute(b, (cond, z3.BoolVal(val))))
            ex2 = extra + [lit]
            if not prove_eq_nf(ctx, a2, b2, ex2, depth + 1):
                return False
        return True
    subs = eq_subst(ctx, extra)
    if subs:
        a2, b2 = z3.substitute(a, *subs), z3.substitute(b, *subs)
        if not (a2.eq(a) and b2.eq(b)):
            d = nfc.term(a2) - nfc.term(b2)
            if is_zero(d):
                return True
            d2 = split_inds(ctx, d, extra)
            return d2
    return split_inds(ctx, d, extra)


def simp(t):
    return z3.simplify(t, som=False, arith_lhs=False) if False else _push_ite(t)


def _push_ite(t):
    # replace ite(true,..)/ite(false,..) only
    cache = {}

    def go(u):
        k = u.get_id()
        if k in cache:
            return cache[k]
        if not z3.is_app(u) or not u.children():
            r = u
        else:
            ch = [go(c) for c in u.children()]
            if u.decl().kind() == z3.Z3_OP_ITE:
                c = z3.simplify(ch[0])
                if z3.is_true(c):
                    r = ch[1]
                elif z3.is_false(c):
                    r = ch[2]
                else:
                    r = z3.If(ch[0], ch[1], ch[2])
            else:
                r = u if all(x.eq(y) for x, y in zip(ch, u.children())) else u.decl()(*ch)
        cache[k] = r
        return r

    return go(t)


def has_bv(t):
    stack = [t]
    while stack:
        u = stack.pop()
        if z3.is_const(u) and u.decl().name().startswith("bv!"):
            return True
        stack.extend(u.children())
    return False


def ind_term(a):
    """z3 condition of an indicator atom, if it can be rendered"""
    k = _keys[a]
    if _info[a]["bvs"]:
        return None
    if k[0] in ("lt", "ilt", "eq"):
        t = render(from_key(k[1]))
        if t is None:
            return None
        return t == 0 if k[0] == "eq" else t < 0
    if k[0] in ("b", "bo"):
        return _info[a]["z3"]
    return None


def render(p):
    tot = None
    for m, c in p.d.items():
        t = z3.RealVal(f"{c.numerator}/{c.denominator}")
        for a, e in m:
            x = render_atom(a)
            if x is None:
                return None
            for _ in range(abs(e)):
                t = t * x if e > 0 else t / x
        tot = t if tot is None else tot + t
    return tot if tot is not None else z3.RealVal(0)


def render_int(p):
    """integer term of a normal form with integer coefficients, or None"""
    tot = None
    for m, c in p.d.items():
        if c.denominator != 1:
            return None
        t = None
        for a, e in m:
            x = _info[a]["z3"]
            if x is None or x.sort() != core.IntS or e < 0 or _info[a]["ind"]:
                return None
            for _ in range(e):
                t = x if t is None else t * x
        t = z3.IntVal(c.numerator) if t is None else (t if c == 1 else z3.IntVal(c.numerator) * t)
        tot = t if tot is None else tot + t
    return tot if tot is not None else z3.IntVal(0)


def split_div(ctx, x, d):
    """x = d*q + r by collecting the monomials divisible by the monomial d: (q, r) or None"""
    pd = poly(ctx, d)
    if len(pd.d) != 1:
        return None
    ((md, cd),) = pd.d.items()
    if cd != 1 or not md or any(e < 0 for _, e in md):
        return None
    px = poly(ctx, x)
    q, r = {}, {}
    for m, c in px.d.items():
        dm = dict(m)
        if all(dm.get(a, 0) >= e for a, e in md):
            for a, e in md:
                dm[a] -= e
            q[tuple(sorted((a, e) for a, e in dm.items() if e))] = c
        else:
            r[m] = c
    q, r = render_int(Poly(q)), render_int(Poly(r))
    return None if q is None or r is None else (q, r)


def render_atom(a):
    k = _keys[a]
    if _info[a]["ind"]:
        c = ind_term(a)
        return None if c is None else z3.If(c, z3.RealVal(1), z3.RealVal(0))
    if k[0] == "exp":
        t = render(from_key(k[1]))
        return None if t is None else core.EXP(t)
    if k[0] == "inv":
        t = render(from_key(k[1]))
        return None if t is None else 1 / t
    if k[0] == "sqrt":
        t = render(from_key(k[1]))
        return None if t is None else core.SQRT(t)
    if k[0] == "log":
        t = render(from_key(k[1]))
        return None if t is None else core.LOG(t)
    if k[0] == "sum":
        return z3.Const(f"sumatom!{a}", core.RealS)
    t = _info[a]["z3"]
    if t is None:
        return None
    return z3.ToReal(t) if t.sort() == core.IntS else t


def split_inds(ctx, d, extra, depth=0):
    """case split on indicator atoms remaining in d"""
    if is_zero(d):
        return True
    if depth > 8:
        return False
    for a in sorted(d.atoms()):
        if _info[a]["ind"]:
            c = ind_term(a)
            if c is None:
                continue
            for val in (1, 0):
                lit = c if val else z3.Not(c)
                if ctx.check_sat(extra + [lit]) == z3.unsat:
                    continue
                d2 = Poly({})
                for m, cc in d.d.items():
                    if any(b == a for b, _ in m):
                        if val:
                            d2 = d2 + Poly({tuple(x for x in m if x[0] != a): cc})
                    else:
                        d2 = d2 + Poly({m: cc})
                if not split_inds(ctx, d2, extra + [lit], depth + 1):
                    return False
            return True
    return False


def renorm_pair(ctx, t):
    """rewrite all arithmetic subterms of a boolean through the normal form"""
    nfc = converter(ctx)
    cache = {}

    def go(u):
        k = u.get_id()
        if k in cache:
            return cache[k]
        r = u
        if z3.is_quantifier(u):
            r = u
        elif u.sort() == core.BoolS and u.children():
            kind = u.decl().kind()
            ch = u.children()
            if kind in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) \
                    and ch[0].sort() in (core.RealS,):
                try:
                    p = nfc.term(ch[0]) - nfc.term(ch[1])
                    x = render(p)
                except core.Unsupported:
                    x = None
                if x is not None:
                    z = z3.RealVal(0)
                    r = {z3.Z3_OP_EQ: x == z, z3.Z3_OP_DISTINCT: x != z, z3.Z3_OP_LE: x <= z, z3.Z3_OP_LT: x < z,
                         z3.Z3_OP_GE: x >= z, z3.Z3_OP_GT: x > z}[kind]
            else:
                c2 = [go(c) if c.sort() == core.BoolS else c for c in ch]
                r = u.decl()(*c2)
        cache[k] = r
        return r

    return go(t)


def prove(ctx, goal, timeout=None, extra=None):
    extra = extra or []
    timeout = timeout or ctx.timeout
    g = goal
    if z3.is_true(z3.simplify(g)):
        return "proved", "simplify", None
    if z3.is_and(g):
        be = set()
        for c in g.children():
            st, b, m = prove(ctx, c, timeout, extra)
            if st != "proved":
                return st, b, m
            be.add(b)
        return "proved", "+".join(sorted(be)), None
    if z3.is_implies(g):
        a, b = g.children()
        if ctx.check_sat(extra + [a], 1000) == z3.unsat:
            return "proved", "z3", None
        return prove(ctx, b, timeout, extra + [a])
    if z3.is_eq(g) and g.arg(0).sort() in (core.IntS, core.RealS):
        if prove_eq_nf(ctx, g.arg(0), g.arg(1), extra):
            return "proved", "nf", None
    elif z3.is_eq(g) and g.arg(0).sort() == core.BoolS:
        nfc = converter(ctx)
        try:
            if is_zero(nfc.cond(g.arg(0)) - nfc.cond(g.arg(1))):
                return "proved", "nf", None
        except core.Unsupported:
            pass
    # z3 on the raw formula
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    for c in ctx.pc:
        s.add(c)
    for c in extra:
        s.add(c)
    s.add(z3.Not(g))
    r = s.check()
    ctx.solver_s += time.time() - t0
    if r == z3.unsat:
        return "proved", "z3", None
    if r == z3.unknown:
        if VALIDATED[0]:
            return "unknown", "z3", None
        if VALIDATED[1] < 4:
            from . import validate
            vals = validate.confirm(ctx, g, extra, None, 2.5)
            if vals is not None:
                VALIDATED[0] += 1
                return "refuted", "evaluation", {"values": vals, "model": None}
    # z3 on the normalised formula
    t0 = time.time()
    s2 = z3.Solver()
    s2.set("timeout", timeout)
    for c in list(ctx.pc) + extra:
        s2.add(c)
        s2.add(renorm_pair(ctx, c))
    s2.add(z3.Not(renorm_pair(ctx, g)))
    s2.add(z3.Not(g))
    r2 = s2.check()
    ctx.solver_s += time.time() - t0
    if r2 == z3.unsat:
        return "proved", "nf+z3", None
    if r2 == z3.sat or r == z3.sat:
        sol = s2 if r2 == z3.sat else s
        return "refuted", "z3", (g, extra, sol.model())
    # second opinion on unknown: cvc5
    st = cvc5_check(ctx, g, extra)
    if st == "unsat":
        return "proved", "cvc5", None
    return "unknown", "z3/cvc5", None


def refuted(ctx, g, extra, model):
    """a countermodel (or none, where the solver gave up): refuted or undecided"""
    from . import validate

    txt = model_str(model) if model is not None else None
    if model is not None and not validate.interpreted(ctx, [g] + list(ctx.pc) + list(extra)):
        return "refuted", "z3", txt
    st = VALIDATED
    if st[0] == 0 and st[1] < 4:
        t0 = time.time()
        vals = validate.confirm(ctx, g, extra, model)
        ctx.solver_s += time.time() - t0
        if vals is not None:
            st[0] += 1
            return "refuted", "evaluation", {"values": vals, "model": txt}
        st[1] += 1
    if model is None:
        return "unknown", "z3/cvc5", None
    if st[0]:
        return "refuted", "z3", txt
    return "unknown", "z3 (countermodel not confirmed)", None


VALIDATED = [0, 0]  # per contract (process): confirmed, not confirmed


def cvc5_check(ctx, g, extra):
    import shutil
    import subprocess

    exe = shutil.which("cvc5")
    if not exe:
        return "unknown"
    s = z3.Solver()
    for c in list(ctx.pc) + list(extra):
        s.add(c)
    s.add(z3.Not(g))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    try:
        r = subprocess.run([exe, "--lang=smt2", "--tlimit=8000", "-"], input=txt, capture_output=True, text=True,
                           timeout=15)
        out = r.stdout.strip().split("\n")[0]
    except Exception:
        out = "unknown"
    ctx.solver_s += time.time() - t0
    return out


def model_str(m):
    out = {}
    for d in m.decls():
        n = d.name()
        try:
            v = str(m[d])
        except Exception:
            continue
        out[n] = v[:200]
        if len(out) > 60:
            break
    return out
