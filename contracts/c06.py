"""C06 stored energy, forces and thermostat constant belong to the walker."""
from .ldfix import *
from .bdfix import BDState

TRUSTED = NP + ["Potential.evaluate / apply_boundary_condition: replaced by their contracts (functions of position, momentum; C07, C08)"]
ASSUMPTIONS = [REALS]
FN = {"bp": [BP + "BussiParinelloLD." + f for f in ("__init__", "run", "add_particle", "remove_particle")] + [BP + "BpldParticle.__init__"],
      "od": [OD + "OverdampedLD." + f for f in ("__init__", "run", "add_particle", "remove_particle")] + [OD + "LDParticle.__init__"]}
FN = {k: v + ["bdld/particle.py:Particle.__init__", "bdld/particle.py:Particle.init_momentum"] for k, v in FN.items()}
ALL = sorted(set(FN["bp"] + FN["od"]))


def invariant(s, w, label):
    """class invariant at one walker"""
    CTX.check_eq(f"{label}.energy", w["energy"], s.pot.e(w["pos"]))
    for a in range(s.d):
        CTX.check_eq(f"{label}.forces{a}", w["forces"][a], s.pot.f(w["pos"])[a])
    if s.kind == "bp":
        CTX.check_eq(f"{label}.c2", w["c2"], s.c2(w["mass"]))


def same_walker(label, a, b):
    for f in a:
        if isinstance(a[f], list):
            for q in range(len(a[f])):
                CTX.check(f"{label}.{f}{q}", eq(a[f][q], b[f][q]))
        else:
            CTX.check(f"{label}.{f}", eq(a[f], b[f]))


@contract("C06", ALL, params=[(k, d, b) for k in ("bp", "od") for d in (1, 2, 3) for b in (True, False)])
def step_preserves_invariant(kind, d, boundary):
    s = LD(kind, d, boundary)
    i = s.generic()
    w = s.walker(s.parts.snapshot(), i)
    s.ld.run(integer("step"))
    v = s.walker(s.parts.snapshot(), i)
    s.check_inferred(v)
    invariant(s, v, "after-step")
    CTX.check("mass-unchanged", eq(v["mass"], w["mass"]))
    CTX.check("number-of-walkers", eq(s.parts.n, s.n))


def arg(kind, d):
    xs = [real(f"new{a}") for a in range(d)]
    return xs, (SList(xs) if kind == "list" else asarray(xs))


def new_walker(s, w, xs, mass, label):
    for a in range(s.d):
        CTX.check_eq(f"{label}.pos{a}", w["pos"][a], xs[a])
        CTX.check_eq(f"{label}.mom{a}", w["mom"][a], 0)
    CTX.check_eq(f"{label}.mass", w["mass"], mass)
    invariant(s, w, label)


def not_shared(p, label):
    shared = CTX.ghost.get("aliased") or (isinstance(p, SymArray) and p.buf.owner is not None)
    CTX.check(f"{label}.own-arrays", z3.BoolVal(not shared), {"what": str(shared)})


@contract("C06", ALL, params=[(k, d, how, op) for k in ("bp", "od") for d in (1, 2, 3) for how in ("list", "array")
                              for op in ("append", "append-default-mass", "insert", "overwrite", "overwrite-last")])
def add_particle(kind, d, how, op):
    """any number of walkers (also none when appending), any index"""
    n = integer("N")
    CTX.assume(n >= (0 if op in ("append", "append-default-mass", "insert") else 1))
    s = LD(kind, d, True, n=n)
    old = s.parts.snapshot()
    xs, p = arg(how, d)
    m = real("m")
    CTX.assume(m > 0)
    k = integer("k")
    if op == "append":
        s.ld.add_particle(p, m)
        k = n
    elif op == "append-default-mass":
        s.ld.add_particle(p)
        m, k = 1.0, n
    elif op == "insert":
        CTX.assume(z3.And(k.e >= -n.e, k.e <= n.e, k.e != -1))
        s.ld.add_particle(p, m, k)
        k = ite(k < 0, k + n, k)
    elif op == "overwrite":
        CTX.assume(z3.And(k.e >= -n.e, k.e < n.e))
        s.ld.add_particle(p, m, k, True)
        k = ite(k < 0, k + n, k)
    else:
        s.ld.add_particle(p, m, overwrite=True)
        k = n - 1
    CTX.check("same-list", z3.BoolVal(s.ld.particles is s.parts))
    over = op.startswith("over")
    CTX.check("number-of-walkers", eq(s.parts.n, n if over else n + 1))
    now = s.parts.snapshot()
    new_walker(s, s.walker(now, k), xs, m, "new")
    not_shared(p, "new")
    i = integer("i")
    CTX.assume(z3.And(i.e >= 0, i.e < n.e))
    if over:
        CTX.assume(z3.simplify(i.e != tr(k)))
        j = i
    else:
        j = ite(i < k, i, i + 1)
    same_walker("others", s.walker(now, j), s.walker(old, i))


@contract("C06", ALL, params=[(k, d) for k in ("bp", "od") for d in (1, 2, 3)])
def remove_particle(kind, d):
    s = LD(kind, d, True)
    old = s.parts.snapshot()
    k = integer("k")
    CTX.assume(z3.And(k.e >= -s.n.e, k.e < s.n.e))
    s.ld.remove_particle(k)
    k = ite(k < 0, k + s.n, k)
    CTX.check("number-of-walkers", eq(s.parts.n, s.n - 1))
    now = s.parts.snapshot()
    j = integer("j")
    CTX.assume(z3.And(j.e >= 0, j.e < s.n.e - 1))
    same_walker("others", s.walker(now, j), s.walker(old, ite(j < k, j, j + 1)))


@contract("C06", ALL, params=[(k, d, ln) for k in ("bp", "od") for d in (1, 2, 3) for ln in (0, 1, 2, 3, 4, "any") if ln != d])
def wrong_dimension(kind, d, ln):
    s = LD(kind, d, True)
    old = s.parts.snapshot()
    if ln == "any":
        m = integer("m")
        CTX.assume(z3.And(m.e >= 0, m.e != d))
        p = symvec("px", m)
    else:
        p = SList([real(f"x{i}") for i in range(ln)])
    e, _ = raises(lambda: s.ld.add_particle(p, real("mass")), ValueError)
    CTX.check("rejected-with-ValueError", z3.BoolVal(e is not None))
    CTX.check("number-of-walkers", eq(s.parts.n, s.n))
    i = s.generic()
    same_walker("walkers", s.walker(s.parts.snapshot(), i), s.walker(old, i))


@contract("C06", FN["bp"][-2:], params=[1, 2, 3])
def particle_constructor(d):
    r = repo()
    m = r.get("bdld.particle")
    xs, p = arg("array", d)
    ms, q = [real(f"p{a}") for a in range(d)], asarray([real(f"p{a}") for a in range(d)])
    pt = m.Particle(p, q, real("mass"))
    for a in range(d):
        CTX.check_eq(f"pos{a}", items(pt.pos)[a], xs[a])
        CTX.check_eq(f"mom{a}", items(pt.mom)[a], ms[a])
    CTX.check_eq("mass", pt.mass, real("mass"))
    CTX.check("own-arrays", z3.BoolVal(pt.pos.buf is not p.buf and pt.mom.buf is not q.buf and pt.pos.buf is not pt.mom.buf))
    e, _ = raises(lambda: m.Particle(p, SList([real("z")] * (d + 1))), ValueError)
    CTX.check("momentum-of-other-dimension-rejected", z3.BoolVal(e is not None))
    if d == 1:
        pt = m.Particle(real("x"), real("y"))
        CTX.check_eq("scalar.pos", items(pt.pos)[0], real("x"))
        CTX.check_eq("scalar.mom", items(pt.mom)[0], real("y"))


@contract("C06", ["bdld/actions/birth_death.py:BirthDeath.perform_moves"], params=[1, 2, 3])
def event_preserves_invariant(d):
    """any event of a birth-death step, for any ensemble that satisfies the invariant"""
    from .c01 import arbitrary_event

    s = BDState(d)
    E = z3.Function("E", *[R] * d, R)
    F = [z3.Function(f"F{a}", *[R] * d, R) for a in range(d)]
    C = z3.Function("C", R, R)
    fl = s.parts.fields
    pos, mass = fl["pos"].getter(), fl["mass"].getter()
    at = lambda i: [trr(pos((i, a))) for a in range(d)]
    fl["energy"].hold((None, lambda idx: wrap(E(*at(idx[0])))))
    fl["forces"].hold((None, lambda idx: pick([wrap(F[a](*at(idx[0]))) for a in range(d)], idx[1])))
    fl["c2"].hold((None, lambda idx: wrap(C(trr(mass(idx))))))
    arbitrary_event(s)
    i = integer("i")
    CTX.assume(z3.And(i.e >= 0, i.e < tr(s.n)))
    x = [trr(fl["pos"].get((i, a))) for a in range(d)]
    CTX.check_eq("after-event.energy", fl["energy"].get((i,)), wrap(E(*x)))
    for a in range(d):
        CTX.check_eq(f"after-event.forces{a}", fl["forces"].get((i, a)), wrap(F[a](*x)))
    CTX.check_eq("after-event.c2", fl["c2"].get((i,)), wrap(C(trr(fl["mass"].get((i,))))))
    CTX.check("number-of-walkers", eq(s.parts.sym_len(), s.n))
