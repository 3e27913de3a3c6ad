"""C18 seeded runs are reproducible and random streams are separate.

A generator is an object whose stream is a function of its seed (contract of
numpy.random.default_rng), so the results are a function of the input if every draw is
taken from a generator that was created, once, from a configured seed."""
from .common import *
from .texts import *
from .c17 import World, lists, go, one, Obj, MA, ORDER
from .bdfix import BDState, Decision, BDC
from .ldfix import LD, BP, OD

TRUSTED = ["numpy.random.Generator: the stream is a function of the seed and of the previous calls", "configparser as in C16"]
ASSUMPTIONS = [REALS, "iteration order of dicts and floating point operations of numpy are deterministic"]


def consts(t, acc=None):
    acc = set() if acc is None else acc
    if z3.is_const(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(t.decl().name())
    for c in t.children():
        consts(c, acc)
    return acc


def function_of(label, seed, t):
    """seed of the generator: made of the configured seed only, different for different seeds"""
    CTX.check(f"{label}.seeded", z3.BoolVal(seed is not None))
    if seed is None:
        return
    if not isinstance(seed, (int, SymInt)):
        raise Unsupported("seed is not an integer")
    e = tr(seed)
    CTX.check(f"{label}.from-the-configured-seed-only", z3.BoolVal(consts(e) <= {t.t.decl().name()}))
    x, y = z3.Ints("seed_x seed_y")
    at = lambda v: z3.substitute(e, (IV(t.t), v))
    CTX.check(f"{label}.depends-on-the-seed", z3.Implies(z3.And(x >= 0, y >= 0, x != y), at(x) != at(y)))
    CTX.check(f"{label}.valid-seed", z3.Implies(IV(t.t) >= 0, e >= 0))
    return at


def generators(o):
    return [v for v in o.__dict__.values() if isinstance(v, npshim.SymRng)]


def own(label, o):
    g = generators(o)
    if len(g) > 1:
        raise Unsupported("several generators")
    CTX.check(f"{label}.owns-a-generator", z3.BoolVal(len(g) == 1))
    return g[0] if g else None


def no_other_source(label, allowed, log):
    bad = [e for e in flat(CTX.events) if e[0] in ("global_random", "nondeterministic")]
    CTX.check(f"{label}.no-other-source-of-randomness", z3.BoolVal(not bad), detail=str([b[1] for b in bad]))
    used = [e[0] for e in log] + [e[1] for e in flat(CTX.events) if e[0] == "rng"]
    CTX.check(f"{label}.draws-from-its-generator", z3.BoolVal(all(any(u is g for g in allowed) for u in used)))


def flat(evs):
    for e in evs:
        if e[0] == "loop":
            for c, x in e[3]:
                yield from flat(x)
        else:
            yield e


@contract("C18", [MA + f for f in ("main", "setup_ld", "init_particles", "setup_birth_death")] + [BP + "BussiParinelloLD.__init__", OD + "OverdampedLD.__init__", BDC + "__init__"],
          params=[(ld, dist, seeded) for ld in ("bussi-parinello", "overdamped") for dist in ("random-global", "random-pos", "fractions-pos")
                  for seeded in ("all", "dynamics", "birth-death", "particles", "none")])
def seeding(ld, dist, seeded):
    """generators made by main for an arbitrary valid input file"""
    k = "bp" if ld == "bussi-parinello" else "od"
    w = World(1, build=(k, "birth-death"))
    secs = lists(valid_file(1, ld, dist, optional=False, absent=ORDER[2:]), 1)
    t = {}
    for sec, lab in (("ld", "dynamics"), ("birth-death", "birth-death"), ("particles", "particles")):
        if seeded in ("all", lab):
            t[lab] = secs[sec].entries["seed"] = Text(f"{sec}.seed")
            CTX.assume(z3.And(ISI(t[lab].t), IV(t[lab].t) >= 0))
    rngs0 = len(CTX.rngs)
    log0 = len(CTX.rng_log)
    e = go(w, secs)
    CTX.check("runs", z3.BoolVal(e is None))
    if e is not None:
        return
    L, bd = one(w, k).real, one(w, "birth-death").real
    gl, gb = own("dynamics", L), own("birth-death", bd)
    if gl is None or gb is None:
        return
    CTX.check("separate-generators", z3.BoolVal(gl is not gb))
    at = {}
    for lab, g in (("dynamics", gl), ("birth-death", gb)):
        if lab in t:
            at[lab] = function_of(lab, g.seed, t[lab])
    if all(at.get(x) for x in ("dynamics", "birth-death")):
        s = z3.Int("same_seed")
        CTX.check("different-streams-for-the-same-seed", z3.Implies(s >= 0, at["dynamics"](s) != at["birth-death"](s)))
    # the initial placement
    draws = [x[1] for x in flat(CTX.events) if x[0] == "rng"]
    place = []
    for g in draws:
        if not any(g is q for q in place):
            place.append(g)
    if dist == "fractions-pos":
        CTX.check("placement.no-draws", z3.BoolVal(not place))
    else:
        CTX.check("placement.one-generator", z3.BoolVal(len(place) == 1))
        for g in place:
            CTX.check("placement.own-generator", z3.BoolVal(g is not gl and g is not gb))
            if "particles" in t:
                function_of("placement", g.seed, t["particles"])
    no_other_source("setup", place, CTX.rng_log[log0:])


@contract("C18", [BP + "BussiParinelloLD.run", BP + "BussiParinelloLD.__init__", BP + "BussiParinelloLD.add_particle", OD + "OverdampedLD.run",
                  OD + "OverdampedLD.__init__", OD + "OverdampedLD.add_particle"], params=[(k, d) for k in ("bp", "od") for d in (1, 2, 3)])
def dynamics(kind, d):
    """a step draws from the generator made by the constructor only"""
    log0 = len(CTX.rng_log)
    s = LD(kind, d)
    CTX.check("setup-draws-nothing", z3.BoolVal(len(CTX.rng_log) == log0))
    g = own("dynamics", s.ld)
    if g is None:
        return
    CTX.check("seed-of-the-constructor", eq(g.seed, integer("seed")) if g.seed is not None else z3.BoolVal(False))
    n0 = len(CTX.rngs)
    CTX.events.clear()
    t = integer("step")
    CTX.assume(t >= 1)
    s.ld.run(t)
    CTX.check("no-generator-made-during-the-run", z3.BoolVal(len(CTX.rngs) == n0))
    CTX.check("keeps-its-generator", z3.BoolVal(generators(s.ld) == [g]))
    no_other_source("dynamics", [g], CTX.rng_log[log0:])
    if kind == "bp":
        other = s.cls(s.pot, s.dt, s.fr, s.kt, integer("seed"))
    else:
        other = s.cls(s.pot, s.dt, integer("seed"))
    CTX.check("not-shared-between-instances", z3.BoolVal(own("other", other) is not g))


@contract("C18", [BDC + "do_birth_death", BDC + "random_other", BDC + "__init__"], params=[False, True])
def birth_death(recalc):
    """the decisions draw from the generator made by the constructor only"""
    log0 = len(CTX.rng_log)
    D = Decision(recalc)
    g = own("birth-death", D.bd)
    if g is None:
        return
    CTX.check("seed-of-the-constructor", eq(g.seed, integer("seed")) if g.seed is not None else z3.BoolVal(False))
    D.step()
    CTX.check("keeps-its-generator", z3.BoolVal(generators(D.bd) == [g]))
    no_other_source("birth-death", [g], CTX.rng_log[log0:])
    CTX.check("no-other-generator", z3.BoolVal(all(r is g for r in CTX.rngs)))


@contract("C18", [BDC + "calc_betas", BDC + "perform_moves", BDC + "__init__"], params=[1, 2])
def no_draws(d):
    """rates and moves are functions of the walkers"""
    s = BDState(d)
    log0, n0 = len(CTX.rng_log), len(CTX.rngs)
    s.bd.calc_betas()
    s.bd.perform_moves(SList([(0, 1)]))
    no_other_source("rates-and-moves", [], CTX.rng_log[log0:])
    CTX.check("no-generator-made", z3.BoolVal(len(CTX.rngs) == n0))
