"""C01 birth-death conserves the population and makes independent full copies."""
from engine.loops import item_getter, seq_len
from engine.values import Poison

from .bdfix import *

TRUSTED = ["copy.deepcopy: a new object with equal values sharing no mutable state with the original",
           "representation of the walkers: every attribute that the real add_particle of either integrator creates (numbers and vectors), per index"]
ASSUMPTIONS = ["loop invariant of perform_moves: walker i holds the initial properties of walker S(i)"]


def fields_equal(name, parts, want, i):
    for f, b in parts.fields.items():
        if len(b.shape) == 1:
            CTX.check(f"{name}.{f}", eq(b.get((i,)), want(f, ())))
        else:
            for a in range(b.shape[1]):
                CTX.check(f"{name}.{f}{a}", eq(b.get((i, a)), want(f, (a,))))


def events(n, length):
    fd, fk = z3.Function("dup", I, I), z3.Function("kill", I, I)

    def ev(q):
        d, k = fd(tr(q)), fk(tr(q))
        CTX.fact(z3.And(d >= 0, d < tr(n), k >= 0, k < tr(n)))
        return (wrap(d), wrap(k))
    if isinstance(length, int):
        return SList([ev(q) for q in range(length)]), ev
    return SList.of(length, ev), ev


def source_map(name, n):
    f = z3.Function(name, I, I)

    def S(i):
        t = f(tr(i))
        CTX.fact(z3.And(t >= 0, t < tr(n)))
        return wrap(t)
    return S


def set_fields(parts, old, S):
    for f, b in parts.fields.items():
        b.hold((None, (lambda g: lambda idx: g((S(idx[0]),) + tuple(idx[1:])))(old[f])))


def arbitrary_event(s):
    """perform_moves on any list of events, at an arbitrary one of them; before it,
    walker i holds the initial properties of walker S(i)"""
    m = integer("number_of_events")
    CTX.assume(m >= 1)
    lst, ev = events(s.n, m)
    old = s.parts.snapshot()
    done = [None]

    def handler(site, it, body, get, set_):
        n = seq_len(it)
        if n is None or isinstance(n, int):
            return NotImplemented
        if done[0] is not None:
            raise Unsupported("more than one loop over the events")
        CTX.check("all-events", eq(n, m))
        k = CTX.fresh_int("event")
        CTX.assume(z3.And(k.e >= 0, k.e < tr(m)))
        S = source_map("S", s.n)
        set_fields(s.parts, old, S)
        s.parts.changed()  # objects taken before the loop may have been replaced
        set_({nm: Poison(("name", nm)) for nm in get()})
        r = body(item_getter(it)(k))
        if isinstance(r, tuple):
            raise Unsupported("loop over the events is left early")
        done[0] = (k, S)
        return None
    CTX.ghost["loop_handlers"] = [handler]
    s.bd.perform_moves(lst)
    if done[0] is None:
        raise Unsupported("no loop over the events")
    k, S = done[0]
    return old, k, S, ev


@contract("C01", [BDC + "perform_moves"], params=[(k, d) for k in ("bp", "od") for d in (1, 2, 3)])
def one_event(kind, d):
    """arbitrary event in the middle of an event list of any length"""
    s = BDState(d, kind=kind)
    old, k, S, ev = arbitrary_event(s)
    dup, kill = ev(k)
    CTX.check("population-unchanged", eq(s.parts.sym_len(), s.n))
    CTX.check("same-list", z3.BoolVal(s.bd.particles is s.parts))
    CTX.check("independent-copies", z3.BoolVal("aliased" not in CTX.ghost), CTX.ghost.get("aliased"))
    i = integer("i")
    CTX.assume(z3.And(i.e >= 0, i.e < tr(s.n)))
    src = ite(eq(i, kill), S(dup), S(i))
    fields_equal("killed-becomes-copy-others-kept", s.parts, lambda f, a: old[f]((src,) + a), i)


@contract("C01", [BDC + "perform_moves"], params=[(w, d, k) for w in ("bp", "od") for d in (1, 2) for k in (0, 1, 2, 3)])
def event_list(kind, d, k):
    """lists of up to three events: executed in order"""
    s = BDState(d, kind=kind)
    lst, ev = events(s.n, k)
    old = s.parts.snapshot()
    s.bd.perform_moves(lst)
    CTX.check("population-unchanged", eq(s.parts.sym_len(), s.n))
    CTX.check("same-list", z3.BoolVal(s.bd.particles is s.parts))
    CTX.check("independent-copies", z3.BoolVal("aliased" not in CTX.ghost), CTX.ghost.get("aliased"))
    i = integer("i")
    CTX.assume(z3.And(i.e >= 0, i.e < tr(s.n)))

    def S(q, x):
        if q == 0:
            return x
        dup, kill = ev(q - 1)
        return ite(eq(x, kill), S(q - 1, dup), S(q - 1, x))
    src = S(k, i)
    fields_equal("in-order", s.parts, lambda f, a: old[f]((src,) + a), i)


@contract("C01", [BDC + f for f in ("do_birth_death", "random_other")], params=[False, True])
def reported_is_executed(recalc):
    """every executed event is reported and vice versa; nothing else touches the walkers"""
    D = Decision(recalc)
    D.step()
    CTX.check("population-unchanged", eq(D.s.parts.sym_len(), D.n))
    CTX.check("same-list", z3.BoolVal(D.bd.particles is D.s.parts))
    i = CTX.fresh_int("i")
    CTX.assume(z3.And(i.e >= 0, i.e < tr(D.n)))
    fields_equal("walkers-changed-by-events-only", D.s.parts, lambda f, a: D.fields0[f]((i,) + a), i)
