"""Loops and comprehensions over sequences of symbolic length.

A loop over a sequence of unknown length n is verified by executing its body
once for an arbitrary index k (0 <= k < n) from an arbitrary loop state that
satisfies the inferred frame/invariant, and by generalising the effect:

  local names / attributes  written before read      -> value of the last iteration
                            x := x + d(k)            -> init + Sum_k d(k)
  buffers                   only cells owned by k    -> cell(i) = value written at k := i
                            buf := buf + d(k)        -> init + Sum_k d(k)
  lists                     one append per iteration -> n more elements, e(k)
                            conditional append       -> filtered sequence
  exceptions / return / break -> first index with the condition, or none

Everything else is outside the rules and reported as undecided (Unsupported).
"""
import builtins

import z3

from . import core, arrays as A, nf
from .core import CTX, Ext, SymBool, SymInt, SymNum, SymReal, Unsupported, generic_eval, ite, merge, tb, tr, wrap
from .arrays import Buf, SymArray, from_fn
from .values import Poison, PoisonRead, SList, ObjList, Element, at_index, instantiate_facts, occurs, subst_struct


def seq_len(it):
    if hasattr(it, "sym_len"):
        return it.sym_len()
    return None


def concretise(n):
    from .lang import concretise as c
    return c(n)


class FilteredSeq:
    """elements val(k) of the indices k < n with cond(k), in order"""

    def __init__(self, n, k, cond, val, serial0, guard):
        self.n, self.k, self.cond, self.val, self.serial0, self.guard = n, k, cond, val, serial0, guard

    def cond_at(self, i):
        instantiate_facts(self.k, i)
        return z3.substitute(self.cond, (self.k, tr(i)))

    def val_at(self, i):
        return subst_struct(self.val, self.k, i, self.guard, self.serial0)

    def count(self):
        return A.agg_sum(self.n, lambda i: A.mask_int(wrap(self.cond_at(i))))

    def sym_len(self):
        return self.count()

    def sym_get(self, i):
        raise Unsupported("element of a filtered sequence")

    def sum(self):
        return A.agg_sum(self.n, lambda i: ite(self.cond_at(i), A.num(self.val_at(i)), 0))

    def as_filtered(self):
        row = ()
        if isinstance(self.val, A.SymArray):
            row = self.val.shape
            if not A.concrete(row):
                raise Unsupported("selection of arrays of symbolic shape")
        return A.Filtered((self.n,), lambda idx: self.val_at(idx[0]), lambda idx: wrap(self.cond_at(idx[0])), tuple(row))


def filtered_list(fs):
    r = SList.of(fs.count(), fs.sym_get)
    r.filtered = fs
    return r


# -- comprehensions ------------------------------------------------------------------
def enter(k):
    """generic index k becomes active; bounds of known minima/maxima hold for it"""
    for m in CTX.mins:
        if len(A.flat_dims(m[1])) == 1:
            m[6]((SymInt(k),))
    CTX.loops.append(k)


def split_exceptions(outs, k, n, what):
    """exceptions of sub-paths: first failing index, or none fails"""
    bad = [(c, x) for c, kind, x in outs if kind == "raise"]
    if not bad:
        return outs
    e = z3.Or(*[c for c, _ in bad])
    guard = z3.And(k >= 0, k < tr(n))
    if CTX.branch(CTX.fresh("fails", core.BoolS)):
        j = CTX.fresh_idx("sk")
        CTX.assume(z3.And(j >= 0, j < tr(n), z3.substitute(e, (k, j))))
        instantiate_facts(k, SymInt(j))
        for c, x in bad[:-1]:
            if CTX.branch(z3.substitute(c, (k, j))):
                raise x
        raise bad[-1][1]
    CTX.fact(z3.Implies(guard, z3.Not(e)))
    q = CTX.fresh_idx("bv")
    CTX.assume(z3.ForAll([q], z3.substitute(z3.Implies(guard, z3.Not(e)), (k, q))))
    return [o for o in outs if o[1] == "value"]


def item_getter(it):
    return it.frozen_get() if hasattr(it, "frozen_get") and not isinstance(it, ObjList) else it.sym_get


def sym_comp(it, n, fn):
    fs = getattr(it, "filtered", None)
    if fs is not None:
        return filtered_comp(it, n, fn, None)
    k = CTX.fresh_idx("k")
    serial0 = CTX.serial
    get = item_getter(it)
    guard = [k >= 0, k < tr(n)]
    enter(k)
    try:
        outs = generic_eval(lambda: fn(get(SymInt(k))), guard)
    finally:
        CTX.loops.pop()
    outs = split_exceptions(outs, k, n, "comprehension")
    if not outs:
        # every iteration ends the path: only the empty sequence is left
        if not CTX.branch(z3.simplify(tr(n) <= 0)):
            raise core.PathEnd()
        return SList()
    v = merge(outs)
    return SList.of(n, lambda i: subst_struct(v, k, i, guard, serial0))


def filtered_comp(it, n, fn, cond):
    base = getattr(it, "filtered", None)
    if base is not None:
        n0 = base.n
        get = lambda i: base.val_at(i)
    else:
        n0 = n
        get = item_getter(it)
    k = CTX.fresh_idx("k")
    serial0 = CTX.serial
    guard = [k >= 0, k < tr(n0)]

    def ev():
        x = get(SymInt(k))
        if base is not None and not bool(wrap(base.cond_at(SymInt(k)))):
            return (False, None)
        if cond is not None and not cond(x):
            return (False, None)
        return (True, fn(x))
    enter(k)
    try:
        outs = generic_eval(ev, guard)
    finally:
        CTX.loops.pop()
    outs = split_exceptions(outs, k, n0, "comprehension")
    sel = [(c, kd, v[1]) for c, kd, v in outs if v[0]]
    if not sel:
        return SList()
    c = z3.simplify(z3.Or(*[s[0] for s in sel]))
    return filtered_list(FilteredSeq(n0, k, c, merge(sel), serial0, guard))


# -- loops ---------------------------------------------------------------------------
def forloop(site, it, body, get, set_):
    for h in CTX.ghost.get("loop_handlers", ()):
        r = h(site, it, body, get, set_)
        if r is not NotImplemented:
            return r
    n = seq_len(it)
    if n is not None:
        n = concretise(n)
    if n is None or (isinstance(n, int) and not isinstance(it, (ObjList,))):
        if n is None or (isinstance(it, SList) and it.seg is None):
            for x in it:
                r = body(x)
                if isinstance(r, tuple):
                    return r
            return None
        g = item_getter(it)
        for i in range(n):
            r = body(g(i))
            if isinstance(r, tuple):
                return r
        return None
    if isinstance(n, int):
        for i in range(n):
            r = body(it.sym_get(i))
            if isinstance(r, tuple):
                return r
        return None
    return Loop(site, it, n, body, get, set_).run()


class Rec:
    """effect of one sub-path of the body"""


class Loop:
    MAXPASS = 12

    def __init__(self, site, it, n, body, get, set_):
        self.site, self.it, self.n, self.body, self.get, self.set_ = site, it, n, body, get, set_
        fs = getattr(it, "filtered", None)
        self.filt = None
        if fs is not None:
            self.n = fs.n
            self.filt = fs.cond_at
            self.item = fs.val_at
        elif isinstance(it, core_IndexSet()) or getattr(it, "index_set", None) and getattr(it, "shuffled", None):
            raise Unsupported(f"loop over an index set at {site}")
        else:
            self.item = item_getter(it)

    # ------------------------------------------------------------------
    def run(self):
        if not CTX.branch(z3.simplify(tr(self.n) > 0)):
            return None
        self.k = CTX.fresh_idx("k")
        self.guard = [self.k >= 0, self.k < tr(self.n)]
        self.entry = self.get()
        self.modes = {}   # slot -> 'poison' | 'acc' | 'same'
        self.slots = {}   # slot -> description
        for nm in self.entry:
            self.slots[("name", nm)] = None
            self.modes[("name", nm)] = "poison"
        self.bufs = {}    # id -> [buf, owner(axis, expr) | 'acc']
        self.lists = {}   # id -> list
        self.read_back = set()
        for _ in range(self.MAXPASS):
            self.acc = {}
            try:
                ok = self.one_pass()
            except PoisonRead as p:
                if p.name[0] == "scatter" and p.name[1] in self.read_back:
                    continue
                if p.name not in self.modes:
                    raise
                self.upgrade(p.name)
                continue
            if ok:
                return self.finish()
        raise Unsupported(f"loop at {self.site}: no invariant found")

    def init_value(self, slot):
        if slot[0] == "name":
            return self.entry[slot[1]]
        o = self.slots[slot][0]
        return o.__dict__[slot[2]] if slot[0] == "attr" else dict.get(o, slot[2], None)

    def upgrade(self, slot):
        from .lang import MISSING
        v = self.init_value(slot)
        if v is MISSING:
            raise UnboundLocalError(f"local variable {slot[-1]!r} referenced before assignment")
        if isinstance(v, Poison):
            v._hit()
        m = self.modes[slot]
        if m == "poison":
            if isinstance(v, (SymNum, int, float, core.Fraction)) and not isinstance(v, bool) and v not in (float("inf"), float("-inf")):
                self.modes[slot] = "acc"
            else:
                self.modes[slot] = "same"
            return
        if m == "acc":
            self.modes[slot] = "accr"
            return
        raise Unsupported(f"loop at {self.site}: {slot[-1]} is carried between iterations")

    def acc_symbol(self, slot):
        v = self.init_value(slot)
        sort = core.RealS if self.modes[slot] == "accr" or isinstance(v, (float, SymReal, core.Fraction)) else core.IntS
        t = z3.Const(CTX.fresh_name("acc"), sort)
        self.acc[slot] = t
        return wrap(t)

    def install(self):
        """loop state at the start of an arbitrary iteration; returns restore function"""
        from .lang import MISSING
        undo = []
        names = dict(self.entry)
        for slot, m in self.modes.items():
            if m == "poison":
                v = Poison(slot)
            elif m in ("acc", "accr"):
                v = self.acc_symbol(slot)
            else:
                v = self.init_value(slot)
            if slot[0] == "name":
                names[slot[1]] = v
            elif slot[0] == "attr":
                o = self.slots[slot][0]
                old = o.__dict__.get(slot[2], MISSING)
                undo.append(lambda o=o, a=slot[2], old=old: o.__dict__.__setitem__(a, old) if old is not MISSING else o.__dict__.pop(a, None))
                o.__dict__[slot[2]] = v
            else:
                o = self.slots[slot][0]
                old = dict.get(o, slot[2], MISSING)
                undo.append(lambda o=o, a=slot[2], old=old: dict.__setitem__(o, a, old) if old is not MISSING else dict.pop(o, a, None))
                dict.__setitem__(o, slot[2], v)
        self.set_(names)
        self.buf_entry = {}
        self.buf_acc = {}
        for i, (b, own) in self.bufs.items():
            st = b.state()
            undo.append(lambda b=b, st=st: b.set_state(st))
            g0 = b.getter()
            self.buf_entry[i] = g0
            if own is None:
                continue
            if own == "acc":
                f = z3.Function(CTX.fresh_name("bufacc"), *[core.IntS] * len(b.shape), core.RealS)
                self.buf_acc[i] = f
                if b.cells is not None:
                    b.set_state(({c: wrap(f(*[z3.IntVal(q) for q in c])) for c in b.cells}, None))
                else:
                    b.set_state((None, lambda idx, f=f: wrap(f(*[tr(q) for q in idx]))))
                continue
            if own == "scatter":
                def sfn(idx, i=i, b=b):
                    self.read_back.add(id(b))
                    self.bufs[i][1] = "acc"
                    raise PoisonRead(("scatter", id(b)))
                b.set_state((None, sfn))
                continue
            a, e = own

            def gfn(idx, g0=g0, a=a, e=e):
                if CTX.known(tr(idx[a]) == e):
                    return g0(idx)
                raise Unsupported(f"loop at {self.site}: reads cells that other iterations write")
            b.set_state((None, gfn))
        for i, l in self.lists.items():
            st = l._state()
            undo.append(lambda l=l, st=st: l._set(st))
            m = z3.Const(CTX.fresh_name("len"), core.IntS)
            CTX.fact(m >= 0)
            self.acc[("list", i)] = m

            def nope(q):
                raise Unsupported(f"loop at {self.site}: reads a list it appends to")
            l._set(([], [("s", SymInt(m), nope)]))

        def restore():
            for u in reversed(undo):
                u()
            self.set_(self.entry)
        return restore

    def sub(self):
        r = Rec()
        j0 = CTX.journal
        CTX.journal = []
        ev0, rl0 = len(CTX.events), len(CTX.rng_log)
        serial0 = CTX.serial
        self.serial0 = serial0
        restore = self.install()
        try:
            if self.filt is not None and not bool(wrap(self.filt(SymInt(self.k)))):
                r.ret = None
            else:
                r.ret = self.body(self.item(SymInt(self.k)))
            r.names = self.get()
            r.journal = [x for x in CTX.journal if CTX.birth(x[0]) <= serial0]
            r.attrs, r.bufs, r.lists, r.items = {}, {}, {}, {}
            for o, slot, undo in r.journal:
                if isinstance(o, ObjList):
                    raise Unsupported(f"loop at {self.site}: changes the structure of an object list")
                if isinstance(o, Buf):
                    if slot[0] != "w":
                        raise Unsupported("buffer change")
                    r.bufs.setdefault(id(o), (o, [], o.getter()))[1].append(slot[1])
                elif isinstance(o, SList):
                    if not (isinstance(slot, tuple) and slot[0] == "append"):
                        raise Unsupported(f"loop at {self.site}: list changed other than by append")
                    r.lists.setdefault(id(o), (o, []))[1].append(slot[1])
                elif isinstance(slot, tuple) and slot[0] == "attr":
                    s = ("attr", id(o), slot[1])
                    r.attrs[s] = (o, o.__dict__[slot[1]])
                elif isinstance(slot, tuple) and slot[0] == "item":
                    s = ("item", id(o), slot[1])
                    r.attrs[s] = (o, dict.__getitem__(o, slot[1]))
                else:
                    raise Unsupported(f"loop at {self.site}: change of {type(o).__name__}")
            r.events = CTX.events[ev0:]
            return r
        finally:
            for o, slot, undo in reversed(CTX.journal):
                if CTX.birth(o) <= serial0:  # what was made in the body keeps its contents
                    undo()
            restore()
            CTX.journal = j0
            del CTX.events[ev0:]
            del CTX.rng_log[rl0:]

    def one_pass(self):
        enter(self.k)
        try:
            self.outs = generic_eval(self.sub, self.guard, pure=False)
        finally:
            CTX.loops.pop()
        new = False
        for c, kind, r in self.outs:
            if kind == "raise":
                continue
            for s, (o, v) in r.attrs.items():
                if s not in self.modes:
                    new = True
                    self.modes[s] = "poison"
                    self.slots[s] = (o,)
            for i, (b, conds, g) in r.bufs.items():
                if i not in self.bufs:
                    new = True
                    self.bufs[i] = [b, None]
            for i, (l, vs) in r.lists.items():
                if i not in self.lists:
                    new = True
                    self.lists[i] = l
        for i, e in self.bufs.items():
            if e[1] is None:
                new = True
                e[1] = self.owner(e[0])
            elif isinstance(e[1], tuple) and not self.frame_ok(e[0], e[1]):
                new = True
                e[1] = "acc"
        return not new

    def write_conds(self, b):
        for c, kind, r in self.outs:
            if kind == "value" and id(b) in r.bufs:
                for w in r.bufs[id(b)][1]:
                    yield c, w

    def gen_idx(self, b):
        if any(isinstance(d, A.Prod) for d in b.shape):
            raise Unsupported("write into a flattened view in a symbolic loop")
        g = [CTX.fresh_idx("g") for _ in b.shape]
        return g, [z3.And(v >= 0, v < tr(d)) for v, d in zip(g, b.shape)]

    def owner(self, b):
        g, rng = self.gen_idx(b)
        first = next(iter(self.write_conds(b)))
        f = self.cond_z3(first[1], g, rng)
        for a in range(len(g)):
            for t in candidates(f, g[a]):
                if not occurs(self.k, t) or any(occurs(x, t) for x in g):
                    continue
                d = z3.simplify(z3.substitute(t, (self.k, self.k + 1)) - t)
                if not z3.is_int_value(d) or d.as_long() not in (1, -1):
                    continue
                own = (a, t)
                if self.frame_ok(b, own):
                    return own
        # data dependent cell, written without reading: last write wins
        if self.scatter_cells(b) is not None and id(b) not in self.read_back:
            return "scatter"
        return "acc"

    def scatter_cells(self, b):
        """cell index written by each sub-path (exactly one write of one cell), or None"""
        out = []
        for c, kind, r in self.outs:
            if kind != "value" or id(b) not in r.bufs:
                continue
            w = r.bufs[id(b)]
            if len(w[1]) != 1:
                return None
            g, rng = self.gen_idx(b)
            f = self.cond_z3(w[1][0], g, rng)
            cell = []
            for a in range(len(g)):
                ts = [t for t in candidates(f, g[a]) if not any(occurs(x, t) for x in g)]
                if not ts:
                    return None
                cell.append(ts[0])
            if CTX.check_sat(rng + self.guard + [c, f != z3.And(*[x == t for x, t in zip(g, cell)])]) != z3.unsat:
                return None
            out.append((c, cell, r.bufs[id(b)][2]))
        return out

    def cond_z3(self, w, g, rng):
        outs = generic_eval(lambda: wrap(tb(w(tuple(SymInt(x) for x in g)))), rng + self.guard)
        if any(o[1] == "raise" for o in outs):
            raise Unsupported("write condition")
        return z3.simplify(tb(merge(outs))) if outs else z3.BoolVal(False)

    def frame_ok(self, b, own):
        a, t = own
        g, rng = self.gen_idx(b)
        for c, w in self.write_conds(b):
            f = self.cond_z3(w, g, rng)
            if CTX.check_sat(rng + self.guard + [c, f, g[a] != t]) != z3.unsat:
                return False
        return True

    # ------------------------------------------------------------------
    def no_acc(self, t, what):
        for s, x in self.acc.items():
            if occurs(x, t):
                raise Unsupported(f"loop at {self.site}: {what} depends on {s[-1]}, which the loop changes")

    def delta(self, slot, v, X):
        v = core._coerce(v, wrap(X))[0] if core._other_ok(v) else None
        if v is None:
            raise Unsupported(f"loop at {self.site}: accumulated value of {slot[-1]}")
        x = X
        if v.sort() != x.sort():
            if x.sort() == core.IntS:
                raise PoisonRead(slot)  # retry with a real accumulator
            v = z3.ToReal(v)
        d = minus(v, x)
        if occurs(X, d):
            raise Unsupported(f"loop at {self.site}: {slot[-1]} is not a plain accumulator")
        self.no_acc(d, f"increment of {slot[-1]}")
        return wrap(d)

    def finish(self):
        from .lang import LANG, MISSING
        k, n = self.k, self.n
        rets = [(c, r.ret) for c, kind, r in self.outs if kind == "value" and isinstance(r.ret, tuple)]
        outs = self.outs
        for c, kind, r in outs:
            self.no_acc(c, "control flow")
        if any(kind == "raise" for c, kind, r in outs):
            if rets:
                raise Unsupported("exceptions and early exit in one loop")
            CTX.ghost["partial_state"] = True
            outs = split_exceptions(outs, k, n, "loop")
            CTX.ghost["partial_state"] = False
            if not outs:
                raise core.PathEnd()
        if rets:
            return self.early_exit(outs, rets)
        recs = [(c, r) for c, kind, r in outs]
        serial0, guard = self.serial0, self.guard
        final = {}
        # scalars
        for slot, m in self.modes.items():
            vals = []
            for c, r in recs:
                if slot[0] == "name":
                    vals.append((c, r.names[slot[1]]))
                elif slot in r.attrs:
                    vals.append((c, r.attrs[slot][1]))
                else:
                    vals.append((c, None if m != "poison" else Poison(slot)))
            if m == "poison":
                if any(isinstance(v, Poison) or v is MISSING for c, v in vals):
                    if all(isinstance(v, Poison) or v is MISSING for c, v in vals):
                        final[slot] = self.init_value(slot)  # never written
                    else:
                        final[slot] = Poison(str(slot[-1]), hard=True)
                    continue
                try:
                    for c, v in vals:
                        self.check_free(v, slot)
                    v = merge([(c, "value", v) for c, v in vals])
                    final[slot] = subst_struct(v, k, n - 1, guard, serial0)
                except Unsupported:
                    final[slot] = Poison(str(slot[-1]), hard=True)
            elif m == "same":
                v0 = self.init_value(slot)
                for c, v in vals:
                    if v is not None and v is not v0 and not (isinstance(v, Poison)):
                        raise Unsupported(f"loop at {self.site}: {slot[-1]} is carried between iterations")
            else:
                X = self.acc[slot]
                ds = []
                for c, v in vals:
                    ds.append((c, "value", 0 if v is None else self.delta(slot, v, X)))
                d = merge(ds)
                init = self.init_value(slot)
                final[slot] = init + A.agg_sum(n, lambda i: at_index(lambda: d, k, i, guard))
        # buffers
        bufw = []
        for i, (b, own) in self.bufs.items():
            touched = [(c, r.bufs.get(i)) for c, r in recs]
            if own == "scatter":
                bufw.append((b, self.scatter_buffer(b, i)))
            elif own == "acc":
                bufw.append((b, self.acc_buffer(b, i, touched)))
            else:
                bufw.append((b, self.owned_buffer(b, i, own, touched)))
        # lists
        lw = []
        for i, l in self.lists.items():
            vs = [(c, r.lists[i][1] if i in r.lists else []) for c, r in recs]
            for c, x in vs:
                for v in x:
                    self.check_free(v, ("list", "list"))
            cnt = {len(x) for c, x in vs}
            if cnt == {1}:
                v = merge([(c, "value", x[0]) for c, x in vs])
                lw.append((l, SList.of(n, (lambda v: lambda q: subst_struct(v, k, q, guard, serial0))(v))))
            elif cnt <= {0, 1}:
                sel = [(c, "value", x[0]) for c, x in vs if x]
                cc = z3.simplify(z3.Or(*[c for c, _, _ in sel]))
                lw.append((l, filtered_list(FilteredSeq(n, k, cc, merge(sel), serial0, guard))))
            else:
                raise Unsupported(f"loop at {self.site}: several appends per iteration")
        evs = [(c, r.events) for c, r in recs]
        # apply
        names = dict(self.entry)
        for slot, v in final.items():
            if slot[0] == "name":
                names[slot[1]] = v
            elif slot[0] == "attr":
                LANG.setattr(self.slots[slot][0], slot[2], v)
            else:
                LANG.setitem(self.slots[slot][0], slot[2], v)
        self.set_(names)
        for b, (cond, val) in bufw:
            b.write(cond, val)
        for l, add in lw:
            l.extend(add)
            if getattr(add, "filtered", None) is not None and (l._state()[1] or [None])[0] is not None:
                if len(l.seg) == 1 or (l.seg[0][0] == "c" and not l.seg[0][1] and len(l.seg) == 2):
                    l.filtered = add.filtered
        if any(e for c, e in evs):
            CTX.event("loop", k, n, evs)
        return None

    def check_free(self, v, slot):
        if isinstance(v, (SymNum, SymBool)):
            self.no_acc(v.e, f"{slot[-1]}")
        elif isinstance(v, tuple):
            for x in v:
                self.check_free(x, slot)

    def inverse(self, own, idx):
        a, t = own
        one = z3.simplify(z3.substitute(t, (self.k, self.k + 1)) - t).as_long()
        c = z3.simplify(t - one * self.k)  # t = one*k + c
        r = z3.simplify((tr(idx[a]) - c) * one)
        return wrap(r)

    def owned_buffer(self, b, i, own, touched):
        k, n, guard = self.k, self.n, self.guard
        g0 = self.buf_entry[i]
        a, t = own

        def at_own(idx):
            return tuple(wrap(t) if q == a else x for q, x in enumerate(idx))

        def cond(idx):
            j = self.inverse(own, idx)
            cs = []
            for c, w in touched:
                if w is None:
                    continue
                f = z3.Or(*[tb(x(at_own(idx))) for x in w[1]])
                cs.append(z3.And(c, f))
            f = z3.simplify(z3.Or(*cs))
            instantiate_facts(k, j)
            jt = tr(j)
            return z3.simplify(z3.And(jt >= 0, jt < tr(n), z3.substitute(f, (k, jt))))

        def val(idx):
            j = self.inverse(own, idx)

            def thunk():
                v = None
                for c, w in reversed(touched):
                    x = w[2](at_own(idx)) if w is not None else g0(at_own(idx))
                    v = x if v is None else ite(c, x, v)
                return v
            return at_index(thunk, k, j, guard)
        return cond, val

    def acc_buffer(self, b, i, touched):
        k, n, guard = self.k, self.n, self.guard
        f = self.buf_acc[i]
        g0 = self.buf_entry[i]

        def val(idx):
            def one(j):
                def thunk():
                    v = None
                    for c, w in reversed(touched):
                        x = 0 if w is None else self.bufdelta(w[2](idx), f, idx)
                        v = x if v is None else ite(c, x, v)
                    return v
                return at_index(thunk, k, j, guard)
            return g0(idx) + A.agg_sum(n, one)
        # probe now, so that an unsupported pattern is found here
        if b.cells is not None:
            vals = {q: val(q) for q in b.cells}
            return (lambda idx: z3.BoolVal(True)), (lambda idx: A.cell_get(vals, idx))
        g, rng = self.gen_idx(b)
        generic_eval(lambda: val(tuple(SymInt(x) for x in g)), rng)
        return (lambda idx: z3.BoolVal(True)), val

    def scatter_buffer(self, b, i):
        """value of the last iteration that writes the cell, if any"""
        k, n, guard = self.k, self.n, self.guard
        g0 = self.buf_entry[i]
        cells = self.scatter_cells(b)
        if cells is None:
            raise Unsupported("scattered write")
        nd = len(b.shape)
        W = z3.Function(CTX.fresh_name("written"), *[core.IntS] * nd, core.BoolS)
        K = z3.Function(CTX.fresh_name("lastk"), *[core.IntS] * nd, core.IntS)
        hit = z3.Or(*[z3.And(c, z3.BoolVal(True)) for c, cell, v in cells])
        xs = [CTX.fresh_idx("bv") for _ in range(nd)]
        j = CTX.fresh_idx("bv")
        wr = z3.Or(*[z3.And(c, *[x == t for x, t in zip(xs, cell)]) for c, cell, v in cells])  # iteration k writes xs
        wj = z3.substitute(wr, (k, j))
        rng = z3.And(j >= 0, j < tr(n))
        # every iteration's cell is marked, with a later or equal last writer
        at = [z3.Implies(z3.And(c, k >= 0, k < tr(n)), z3.And(W(*cell), K(*cell) >= k)) for c, cell, v in cells]
        CTX.assume(z3.ForAll([j], z3.substitute(z3.And(*at), (k, j))))
        CTX.fact(z3.And(*at))

        def mark(idx):
            ts = [tr(q) for q in idx]
            w = W(*ts)
            kk = K(*ts)
            CTX.fact(z3.Implies(w, z3.And(kk >= 0, kk < tr(n), z3.substitute(wr, *[(x, t) for x, t in zip(xs, ts)], (k, kk)))))
            instantiate_facts(k, wrap(kk))
            return w, kk

        def cond(idx):
            return mark(idx)[0]

        def val(idx):
            w, kk = mark(idx)

            def thunk():
                v = None
                for c, cell, g in reversed(cells):
                    x = g(tuple(wrap(t) for t in cell))
                    v = x if v is None else ite(c, x, v)
                return v
            return at_index(thunk, k, wrap(kk), guard)
        return cond, val

    def bufdelta(self, v, f, idx):
        x = f(*[tr(q) for q in idx])
        t = core.trr(v) if core._other_ok(v) else None
        if t is None:
            raise Unsupported("accumulated array value")
        d = minus(t, x)
        if has_fun(f, d):
            raise Unsupported(f"loop at {self.site}: array is not a plain accumulator")
        self.no_acc(d, "array increment")
        return wrap(d)

    def early_exit(self, outs, rets):
        if any(m not in ("poison", "same") for m in self.modes.values()) or self.bufs or self.lists or any(
                s[0] != "name" for s in self.modes) or any(r.events for c, kd, r in outs):
            raise Unsupported(f"loop at {self.site}: early exit from a loop with side effects")
        k, n = self.k, self.n
        e = z3.Or(*[c for c, _ in rets])
        guard = z3.And(*self.guard)
        q = CTX.fresh_idx("bv")
        if CTX.branch(CTX.fresh("exits", core.BoolS)):
            j = CTX.fresh_idx("sk")
            CTX.assume(z3.And(j >= 0, j < tr(n), z3.substitute(e, (k, j))))
            CTX.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < j), z3.Not(z3.substitute(e, (k, q))))))
            instantiate_facts(k, SymInt(j))
            for c, kd, r in outs:
                if not isinstance(r.ret, tuple):
                    continue
                if CTX.branch(z3.substitute(c, (k, j))):
                    names = dict(self.entry)
                    for nm, v in r.names.items():
                        if isinstance(v, Poison):
                            v = self.entry[nm] if self.modes[("name", nm)] == "same" else Poison(nm, hard=True)
                        names[nm] = subst_struct(v, k, SymInt(j), self.guard, self.serial0) if not isinstance(v, Poison) else v
                    self.set_(names)
                    return tuple(subst_struct(x, k, SymInt(j), self.guard, self.serial0) for x in r.ret)
            raise core.PathEnd()
        CTX.fact(z3.Implies(guard, z3.Not(e)))
        CTX.assume(z3.ForAll([q], z3.substitute(z3.Implies(guard, z3.Not(e)), (k, q))))
        names = dict(self.entry)
        for slot, m in self.modes.items():
            if m == "poison":
                names[slot[1]] = Poison(slot[1], hard=True)
        for nm in names:
            if all(isinstance(r.names[nm], Poison) for c, kd, r in outs):
                names[nm] = self.entry[nm]
        self.set_(names)
        return None


def minus(v, x):
    """v - x, with the difference taken inside conditionals"""
    if v.eq(x):
        return z3.IntVal(0) if x.sort() == core.IntS else z3.RealVal(0)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        return z3.simplify(z3.If(c, minus(a, x), minus(b, x)))
    if z3.is_add(v):
        cs = v.children()
        for i, c in enumerate(cs):
            if c.eq(x):
                rest = cs[:i] + cs[i + 1:]
                return z3.Sum(*rest) if len(rest) > 1 else rest[0]
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE and occurs(x, c) and not any(
                    occurs(x, o) for j, o in enumerate(cs) if j != i):
                rest = cs[:i] + cs[i + 1:]
                return z3.simplify(minus(c, x) + (z3.Sum(*rest) if len(rest) > 1 else rest[0]))
    return z3.simplify(v - x, som=True)


def has_fun(f, t):
    seen = set()

    def walk(x):
        if x.get_id() in seen:
            return False
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(f):
            return True
        return any(walk(c) for c in x.children())
    return walk(t)


def candidates(f, g):
    """terms t such that a conjunct of f is g == t"""
    out = []

    def walk(x):
        if z3.is_and(x):
            for c in x.children():
                walk(c)
        elif z3.is_eq(x):
            a, b = x.children()
            if a.sort() != core.IntS:
                return
            # solve linear: a - b = +-g + rest
            d = z3.simplify(a - b)
            p = z3.simplify(z3.substitute(d, (g, g + 1)) - d)
            if z3.is_int_value(p) and p.as_long() in (1, -1):
                s = p.as_long()
                out.append(z3.simplify(-s * z3.substitute(d, (g, z3.IntVal(0)))))
    walk(f)
    return out


def core_IndexSet():
    from .npshim import IndexSet
    return IndexSet
