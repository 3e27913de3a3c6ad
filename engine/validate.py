"""Confirmation of refuted obligations by evaluation.

The solver sees exp, log, sqrt, pow and the sums / minima over symbolic numbers of
elements as unknown functions and constants.  Its countermodel may therefore be one
in which they do not mean what they mean.  Before an obligation that involves them is
called refuted, the path condition and the obligation are evaluated with their true
meaning (rational arithmetic, exp etc. rounded) on values taken from countermodels;
only if the path condition comes out true and the obligation false, the obligation
is refuted; else it stays undecided.
"""
import itertools
import math
import os
import random
import time
from fractions import Fraction

import z3

from . import core

INTERP = ("exp", "log", "sqrt", "pow")
DEBUG = bool(os.environ.get("VERIF_VALIDATE"))
TOL = Fraction(1, 10 ** 9)


class NoValue(Exception):
    pass


def interpreted(ctx, terms):
    """does the meaning of a term depend on more than the solver knows?"""
    seen = set()
    todo = list(terms)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            n = t.decl().name()
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (n in INTERP or n in ctx.aggs or n.startswith(("min!", "max!"))):
                return True
            todo.extend(t.children())
    return False


def frac(v):
    if v is None:
        raise NoValue("no value")
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long()) if not z3.is_int_value(v) else v.as_long()
    if z3.is_algebraic_value(v):
        v = v.approx(15)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise NoValue(str(v))


class Eval:
    def __init__(self, ctx, model, rnd, span, fromfun):
        self.ctx, self.model, self.rnd, self.span, self.fromfun = ctx, model, rnd, span, fromfun
        self.tab = {}
        self.consts = {}
        self.steps = 0
        self.minmemo = {}
        self.quants = {}
        self.mins = {}
        for sg, sh, gi, val, res, wit, inst in ctx.mins:
            e = res.fin if isinstance(res, core.Ext) else getattr(res, "e", None)
            if e is not None and z3.is_const(e):
                self.mins[e.decl().name()] = (sg, sh, gi, val, e)
                for k, w in enumerate(wit):
                    self.mins[w.e.decl().name()] = (sg, sh, gi, val, k)
                if isinstance(res, core.Ext) and z3.is_const(res.p):
                    self.mins[res.p.decl().name()] = (sg, sh, gi, val, "inf")

    def minimum(self, n):
        from .arrays import flat_dims
        sg, sh, gi, val, what = self.mins[n]
        key = tuple(g.get_id() for g in gi)
        if key not in self.minmemo:
            dims = [self.ev(core.tr(d), {}) for d in flat_dims(sh)]
            size = math.prod(dims)
            if not 0 < size <= 400:
                raise NoValue("size")
            best = None
            for idx in itertools.product(*[range(d) for d in dims]):
                env = {g.decl().name(): i for g, i in zip(gi, idx)}
                if isinstance(val, core.Ext):
                    if self.ev(val.p, env):
                        v = None
                    else:
                        v = self.ev(core.tr(val.fin) if not z3.is_expr(val.fin) else val.fin, env)
                else:
                    v = self.ev(core.tr(val), env)
                if best is None or (best[0] is None and v is not None) or \
                        (v is not None and (v < best[0] if sg > 0 else v > best[0])):
                    best = (v, idx)
            self.minmemo[key] = best
        v, idx = self.minmemo[key]
        if isinstance(what, str):
            return v is None
        if isinstance(what, int):
            return idx[what]
        return Fraction(0) if v is None else v

    def draw(self, sort):
        if sort == core.BoolS:
            return self.rnd.random() < 0.5
        if sort == core.IntS:
            return self.rnd.randint(0, 3)
        lo, hi = self.span
        return Fraction(round((lo + (hi - lo) * self.rnd.random()) * 4096), 4096)

    def const(self, t):
        n = t.decl().name()
        if n in self.consts:
            return self.consts[n]
        if n == "pi":
            v = Fraction(math.pi)
        else:
            m = self.model[t.decl()] if self.model is not None else None
            v = frac(m) if m is not None else self.draw(t.sort())
        self.consts[n] = v
        return v

    def fun(self, t, args):
        k = (t.decl().name(),) + tuple(args)
        if k in self.tab:
            return self.tab[k]
        v = None
        if self.model is not None:
            fi = self.model[t.decl()]
            if fi is not None and hasattr(fi, "num_entries"):
                try:
                    cnt = fi.num_entries()
                except z3.Z3Exception:  # no interpretation in this model
                    cnt, fi = 0, None
                for j in range(cnt):
                    e = fi.entry(j)
                    try:
                        if all(frac(e.arg_value(i)) == args[i] for i in range(len(args))):
                            v = frac(e.value())
                    except NoValue:
                        pass
                if fi is not None and v is None and self.fromfun:
                    try:
                        v = frac(fi.else_value())
                    except (NoValue, z3.Z3Exception):
                        v = None
        if v is None:
            if t.sort() not in (core.BoolS, core.IntS, core.RealS):
                raise NoValue("sort")
            v = self.draw(t.sort())
        self.tab[k] = v
        return v

    def ev(self, t, env):
        memo = {}
        return self.go(t, env, memo)

    def go(self, t, env, memo):
        k = t.get_id()
        if k in memo:
            return memo[k]
        self.steps += 1
        if self.steps > 400000:
            raise NoValue("steps")
        r = self.go1(t, env, memo)
        memo[k] = r
        return r

    def quant(self, t, env):
        """quantified integers range over indices: all sizes are small here"""
        if t.is_lambda() or any(t.var_sort(i) != core.IntS for i in range(t.num_vars())) or t.num_vars() > 3:
            raise NoValue("quantifier")
        k = t.get_id()
        if k not in self.quants:
            vs = [z3.Const(f"qv!{k}!{i}", core.IntS) for i in range(t.num_vars())]
            self.quants[k] = (t, vs, z3.substitute_vars(t.body(), *reversed(vs)))
        _, vs, body = self.quants[k]
        if any(isinstance(v, int) and not isinstance(v, bool) and v > 12 for v in self.consts.values()):
            raise NoValue("quantifier over a large range")
        for idx in itertools.product(range(-1, 14), repeat=len(vs)):
            r = self.ev(body, {**env, **{v.decl().name(): i for v, i in zip(vs, idx)}})
            if bool(r) != t.is_forall():
                return bool(r)
        return t.is_forall()

    def go1(self, t, env, memo):
        if z3.is_quantifier(t):
            return self.quant(t, env)
        if not z3.is_app(t):
            raise NoValue("term")
        if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_algebraic_value(t):
            return frac(t)
        d = t.decl()
        kind = d.kind()
        ch = t.children()
        if kind == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            if n in env:
                return env[n]
            ag = self.ctx.aggs.get(n)
            if ag is not None:
                e2 = dict(env)
                for p, a in zip(ag.params, ch):
                    e2[p.decl().name()] = self.go(a, env, memo)
                cnt = self.ev(ag.n, e2)
                if cnt > 60:
                    raise NoValue("size")
                s = 0
                for i in range(int(cnt)):
                    e2[ag.var.decl().name()] = i
                    s = s + self.num(self.ev(ag.body, e2))
                return s
            if not ch and n in self.mins:
                return self.minimum(n)
            if not ch:
                return self.const(t)
            a = [self.go(c, env, memo) for c in ch]
            try:
                if n == "exp":
                    return Fraction(math.exp(a[0]))
                if n == "log":
                    return Fraction(math.log(a[0]))
                if n == "sqrt":
                    return Fraction(math.sqrt(a[0]))
                if n == "pow":
                    return Fraction(float(a[0]) ** float(a[1]))
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                raise NoValue("domain")
            return self.fun(t, a)
        if kind == z3.Z3_OP_ITE:
            return self.go(ch[1] if self.go(ch[0], env, memo) else ch[2], env, memo)
        if kind == z3.Z3_OP_AND:
            return all(self.go(c, env, memo) for c in ch)
        if kind == z3.Z3_OP_OR:
            return any(self.go(c, env, memo) for c in ch)
        if kind == z3.Z3_OP_IMPLIES:
            return (not self.go(ch[0], env, memo)) or self.go(ch[1], env, memo)
        a = [self.go(c, env, memo) for c in ch]
        if kind == z3.Z3_OP_TRUE:
            return True
        if kind == z3.Z3_OP_FALSE:
            return False
        if kind == z3.Z3_OP_NOT:
            return not a[0]
        if kind == z3.Z3_OP_XOR:
            return a[0] != a[1]
        if kind == z3.Z3_OP_EQ:
            return self.eq(a[0], a[1])
        if kind == z3.Z3_OP_DISTINCT:
            return all(not self.eq(x, y) for i, x in enumerate(a) for y in a[i + 1:])
        if kind == z3.Z3_OP_LE:
            return a[0] <= a[1] or self.eq(a[0], a[1])
        if kind == z3.Z3_OP_GE:
            return a[0] >= a[1] or self.eq(a[0], a[1])
        if kind == z3.Z3_OP_LT:
            return a[0] < a[1] and not self.eq(a[0], a[1])
        if kind == z3.Z3_OP_GT:
            return a[0] > a[1] and not self.eq(a[0], a[1])
        if kind == z3.Z3_OP_ADD:
            return sum(a[1:], a[0])
        if kind == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if kind == z3.Z3_OP_UMINUS:
            return -a[0]
        if kind == z3.Z3_OP_MUL:
            return math.prod(a[1:], start=a[0])
        if kind == z3.Z3_OP_DIV:
            if a[1] == 0:
                raise NoValue("division by zero")
            return Fraction(a[0]) / Fraction(a[1])
        if kind in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            if a[1] == 0:
                raise NoValue("division by zero")
            q = a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
            return q if kind == z3.Z3_OP_IDIV else a[0] - q * a[1]
        if kind == z3.Z3_OP_TO_REAL:
            return Fraction(a[0])
        if kind == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if kind == z3.Z3_OP_IS_INT:
            return Fraction(a[0]).denominator == 1
        if kind == z3.Z3_OP_POWER:
            try:
                if Fraction(a[1]).denominator == 1 and abs(a[1]) < 20 and (a[0] != 0 or a[1] > 0):
                    return Fraction(a[0]) ** int(a[1])
                return Fraction(float(a[0]) ** float(a[1]))
            except (TypeError, OverflowError, ZeroDivisionError):
                raise NoValue("power")
        raise NoValue(f"operation {d.name()}")

    @staticmethod
    def num(x):
        return int(x) if isinstance(x, bool) else x

    @staticmethod
    def eq(x, y):
        if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
            return x == y
        if isinstance(x, (Fraction, int)) and isinstance(y, (Fraction, int)):
            return x == y or abs(x - y) <= TOL * max(1, abs(x), abs(y))
        return x == y


def leaves(terms):
    """uninterpreted constants and ground applications"""
    seen, out = set(), []
    todo = list(terms)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(t)
            todo.extend(t.children())
    return out


def confirm(ctx, goal, extra, model, budget=8.0):
    """values (dict) under which the path condition holds and the goal does not, or None"""
    t0 = time.time()
    pc = list(ctx.pc) + list(extra)
    rnd = random.Random(12345)
    parts = []
    for c in pc:
        parts.extend(c.children() if z3.is_and(c) else [c])
    own = [t for t in leaves(parts + [goal]) if t.decl().name() not in INTERP and t.decl().name() not in ctx.aggs]
    ints = [t for t in own if t.sort() == core.IntS and t.num_args() == 0]
    reals = [t for t in own if t.sort() == core.RealS and not t.decl().name().startswith(("min!", "max!"))]
    spans = [(0.05, 0.95), (0.2, 2.5), (-2.0, 2.0), (0.5, 6.0)]

    def attempt(m, span, fromfun):
        e = Eval(ctx, m, rnd, span, fromfun)
        try:
            if e.ev(goal, {}):
                if DEBUG:
                    print("goal true")
                return None
            for c in parts:
                try:
                    if not e.ev(c, {}):
                        if DEBUG:
                            print("pc false", str(c)[:300])
                        return None
                except NoValue as x:
                    if str(x) != "quantifier":
                        return None
        except (NoValue, RecursionError, OverflowError, z3.Z3Exception) as x:
            if DEBUG:
                import traceback
                print("novalue", repr(x)[:100], [(f.name, f.lineno) for f in traceback.extract_tb(x.__traceback__)[-4:]])
            return None
        return {**{k: str(v) for k, v in e.consts.items()}, **{f"{k[0]}{k[1:]}": str(v) for k, v in e.tab.items()}}

    def solve(pins, negate, timeout):
        """model of the path condition with as many of the pins as possible"""
        s = z3.Solver()
        s.set("timeout", timeout)
        for c in pc:
            s.add(c)
        if negate:
            s.add(z3.Not(goal))
        ps = []
        for j, c in enumerate(pins):
            b = z3.Bool(f"pin!{j}")
            s.add(z3.Implies(b, c))
            ps.append(b)
        for _ in range(12):
            r = s.check(*ps)
            if r == z3.sat:
                return s.model()
            if r != z3.unsat:
                if not ps:
                    return None
                ps = ps[:len(ps) // 2]
                continue
            core_ = s.unsat_core()
            if not len(core_):
                return None
            drop = {c.get_id() for c in core_}
            left = [p for p in ps if p.get_id() not in drop]
            # keep half of the conflicting ones
            conf = [p for p in ps if p.get_id() in drop]
            ps = left + (conf[:len(conf) // 2] if len(conf) > 1 else [])
        return None

    small = [z3.And(c >= -6, c <= 6) for c in ints]
    if model is not None:
        for span in spans[:2]:
            r = attempt(model, span, True) or attempt(model, span, False)
            if r:
                return r
    k = 0
    while time.time() - t0 < budget and k < 500:
        span = spans[k % len(spans)]
        lo, hi = span
        pins = list(ctx.hints) + small
        rnd.shuffle(reals)
        if k:
            for t in reals:
                pins.append(t == z3.RealVal(str(Fraction(round((lo + (hi - lo) * rnd.random()) * 64), 64))))
        m = solve(pins, k % 2 == 0 and k < 12, 1500)
        if DEBUG and m is None:
            print("no model")
        if m is not None:
            for _ in range(3):
                r = attempt(m, span, k == 0)
                if r:
                    return r
        k += 1
    return None
