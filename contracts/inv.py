"""One arbitrary iteration of a loop over a (shuffled) set of indices, for a state
given by an invariant: lists the body appends to have an arbitrary number m of earlier
entries, counters it changes arbitrary values, and arrays the contract marks (see
`carried`) an arbitrary current version.  The code after the loop runs on that state."""
from .common import z3

from engine import core
from engine.core import CTX, SymInt, SymNum, SymReal, Unsupported, generic_eval, tr, wrap
from engine.arrays import Buf, SymArray
from engine.npshim import IndexSet
from engine.values import ObjList, Poison, PoisonRead, SList

from engine.lang import MISSING


def index_set(it):
    """(n, predicate) if it enumerates a shuffled set of indices"""
    if isinstance(it, IndexSet) and it.shuffled:
        return it.n, it.pred
    x = getattr(it, "index_set", None)
    if isinstance(it, SymArray) and x and getattr(it, "shuffled", None):
        if it.buf.nwrites != x[2]:
            raise Unsupported("loop over a modified shuffled array")
        return x[0], x[1]
    return None


def shape_like(v, name):
    """arbitrary value structured like v, as a function of the position in the list"""
    if isinstance(v, tuple):
        fs = [shape_like(x, f"{name}.{j}") for j, x in enumerate(v)]
        return lambda q: tuple(f(q) for f in fs)
    if isinstance(v, (int, SymInt)) and not isinstance(v, bool):
        f = z3.Function(CTX.fresh_name(name), core.IntS, core.IntS)
        return lambda q: wrap(f(tr(q)))
    raise Unsupported(f"list of {type(v).__name__}")


class Iteration:
    def __init__(self, carried=None):
        self.carried = carried  # value -> value at the start of an arbitrary iteration, or None
        self.loop = None

    # the handler ---------------------------------------------------------------
    def __call__(self, site, it, body, get, set_):
        s = index_set(it)
        if s is None:
            return NotImplemented
        if self.loop is not None:
            raise Unsupported("more than one loop over the walkers")
        self.loop = site
        self.n, self.pred = s
        self.body, self.get, self.set_ = body, get, set_
        self.entry = get()
        self.i = CTX.fresh_int("walker")
        self.guard = [self.i.e >= 0, self.i.e < tr(self.n), core.tb(self.pred(self.i))]
        self.attrs, self.lists, self.poison = {}, {}, None
        self.entry_lists, self.entry_attrs = {}, {}
        self.m = CTX.fresh_int("events_so_far")
        CTX.assume(self.m >= 0)
        for _ in range(8):
            if not self.discover():
                break
        else:
            raise Unsupported("loop state does not settle")
        self.relate()
        self.install()
        return None

    def relate(self):
        """components of the lists that are equal in every entry the body adds (and so in
        every earlier entry) become the same function"""
        self.grows = None
        if not any(st[0] or st[1] for st in self.entry_lists.values()):
            same, grows = None, {}
            for entries in self.entries:
                comp = {}
                for k in self.lists:
                    vals = entries.get(k, [])
                    grows.setdefault(k, []).append(len(vals))
                    for q, v in enumerate(vals):
                        for j, x in enumerate(v) if isinstance(v, tuple) else [(None, v)]:
                            comp.setdefault((k, j), []).append(tr(x) if isinstance(x, (int, SymInt)) else None)
                ks = sorted(comp, key=str)
                pairs = {(a, b) for a in ks for b in ks if str(a) < str(b) and len(comp[a]) == len(comp[b])
                         and all(x is not None and y is not None and x.eq(y) for x, y in zip(comp[a], comp[b]))}
                if not comp:
                    continue
                same = pairs if same is None else same & pairs
            for a, b in sorted(same or (), key=str):
                if grows[a[0]] == grows[b[0]]:
                    self.alias(b, a)
            self.grows = grows
        elif any(getattr(l, "of_set", False) for l, f in self.lists.values()):
            raise Unsupported("a set with elements before the loop")

    def alias(self, a, b):
        """component a is component b"""
        l, f = self.lists[a[0]]
        g = self.lists[b[0]][1]
        src = g if b[1] is None else (lambda q: g(q)[b[1]])
        if a[1] is None:
            h = src
        else:
            h = lambda q: tuple(src(q) if j == a[1] else x for j, x in enumerate(f(q)))
        self.lists[a[0]] = (l, h)

    def discover(self):
        new = [False]
        self.entries = []

        def once():
            j0, CTX.journal = CTX.journal, []
            ev0, rl0, serial0 = len(CTX.events), len(CTX.rng_log), CTX.serial
            ghost0 = dict(CTX.ghost)
            undo = self.install()
            try:
                r = self.body(self.i)
                if isinstance(r, tuple):
                    raise Unsupported("loop over the walkers is left early")
                entries = {}
                for o, slot, _ in CTX.journal:
                    if CTX.birth(o) > serial0:
                        continue
                    if isinstance(o, SList):
                        if not (isinstance(slot, tuple) and slot[0] == "append"):
                            raise Unsupported("list changed other than by append")
                        entries.setdefault(id(o), []).append(slot[1])
                        if id(o) not in self.lists:
                            new[0] = True
                            self.lists[id(o)] = (o, shape_like(slot[1], "old"))
                    elif isinstance(slot, tuple) and slot[0] == "attr" and not isinstance(o, (Buf, ObjList)):
                        k = (id(o), slot[1])
                        if k not in self.attrs:
                            new[0] = True
                            self.attrs[k] = (o, slot[1], None)
                    else:
                        raise Unsupported(f"loop over the walkers changes {type(o).__name__}")
                self.entries.append(entries)
            finally:
                for o, slot, u in reversed(CTX.journal):
                    u()
                undo()
                CTX.journal = j0
                del CTX.events[ev0:]
                del CTX.rng_log[rl0:]
                CTX.ghost.clear()
                CTX.ghost.update(ghost0)
        for c, kind, v in generic_eval(once, self.guard, pure=False):
            if kind == "raise":
                raise Unsupported(f"{type(v).__name__} in the loop over the walkers: {v}")
        for k, (o, a, t) in list(self.attrs.items()):
            if t is None:
                v = o.__dict__[a]
                if not isinstance(v, (int, SymInt)) or isinstance(v, bool):
                    raise Unsupported(f"attribute {a} is carried between iterations")
                self.entry_attrs[k] = v
                self.attrs[k] = (o, a, CTX.fresh_int(a))
        for k, (l, f) in self.lists.items():
            self.entry_lists.setdefault(k, l._state())
        return new[0]

    def install(self):
        undo = []
        names = {}
        for nm, v in self.entry.items():
            c = self.carried(v) if self.carried and v is not MISSING else None
            names[nm] = c if c is not None else Poison(("name", nm))
        self.set_(names)
        undo.append(lambda: self.set_(self.entry))
        for k, (o, a, t) in self.attrs.items():
            if t is not None:
                old = o.__dict__[a]
                undo.append(lambda o=o, a=a, old=old: o.__dict__.__setitem__(a, old))
                o.__dict__[a] = t
        for k, (l, f) in self.lists.items():
            st = l._state()
            undo.append(lambda l=l, st=st: l._set(st))
            l._set(([], [("s", self.m, f)]))

        def all_():
            for u in reversed(undo):
                u()
        return all_

    # afterwards ------------------------------------------------------------------
    def initially_empty(self):
        return all(not st[0] and not st[1] for st in self.entry_lists.values())

    def step(self):
        """run the body for the arbitrary walker (its branches become paths)"""
        for g in self.guard:
            CTX.assume(g)
        self.install()
        r = self.body(self.i)
        if isinstance(r, tuple):
            raise Unsupported("loop over the walkers is left early")
        return self.get()

    def appended(self):
        """per list the entries added by the iteration"""
        out = {}
        for k, (l, f) in self.lists.items():
            seg = l.seg or []
            if not seg or seg[0][0] != "s" or seg[0][2] is not f or any(s[0] != "c" for s in seg[1:]):
                raise Unsupported("list was rebuilt by the loop")
            out[k] = [x for s in seg[1:] for x in s[1]]
        return out

    def subst(self, t):
        """value after the step of an expression over the state before it"""
        sub = [(t0.e, tr(o.__dict__[a])) for (o, a, t0) in self.attrs.values()]
        n = {len(v) for v in self.appended().values()}
        if len(n) == 1:
            sub.append((self.m.e, self.m.e + n.pop()))
        t = tr(t)
        return z3.substitute(t, *sub) if sub else t
