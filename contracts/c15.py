"""C15 initial particle placement."""
from .common import *
from .strides import *
from . import c06, ldfix
from .ldfix import BP, OD

M = "bdld/main.py:init_particles"
NV = "bdld/inputparser.py:get_all_numbered_values"
TRUSTED = ["numpy Generator: uniform(a, b) = a + (b-a)*random() with random() in [0,1), choice picks one of the given items",
           "contracts of ld.add_particle (add_particle[...] below) used in init_particles"]
ASSUMPTIONS = [REALS, "1 to 4 given positions and fractions (the names of the options are concrete)"]


class LD:
    """contract of add_particle: one more particle with (a copy of) pos and mass"""

    def __init__(self, d):
        self.d = d
        self.lo, self.hi = [real(f"lo{a}") for a in range(d)], [real(f"hi{a}") for a in range(d)]
        for a in range(d):
            CTX.assume(self.hi[a] > self.lo[a])

        class Pot:
            ranges = SList(list(zip(self.lo, self.hi)))
            n_dim = d
        self.pot = Pot()

    def add_particle(self, pos, mass=1.0, partnum=-1, overwrite=False):
        if overwrite is not False:
            raise Unsupported("overwrite")
        p = asarray(pos)
        CTX.check("dimension-of-the-position", z3.BoolVal(len(p.shape) == 1 and A.same(p.shape[0], self.d)))
        CTX.event("add", p.copy(), mass)


def added(events=None, ks=(), cond=z3.BoolVal(True)):
    """[(loop variables and numbers, condition, event)]"""
    out = []
    for e in CTX.events if events is None else events:
        if e[0] == "add":
            out.append((ks, cond, e))
        elif e[0] == "loop":
            for c, evs in e[3]:
                out += added(evs, ks + ((e[1], e[2]),), z3.And(cond, c))
    return out


def number(which=lambda e: True, events=None):
    """how many particles were added; the alternatives of a loop iteration exclude each other"""
    t = 0
    for e in CTX.events if events is None else events:
        if e[0] == "add":
            t = t + (1 if which(e) else 0)
        elif e[0] == "loop":
            alt = [number(which, evs) for c, evs in e[3]]
            if not all(A.same(x, alt[0]) for x in alt):
                raise Unsupported("number of particles differs between iterations")
            t = t + alt[0] * ite(e[2] > 0, e[2], 0)
    return t


def arbitrary(ks, cond):
    """facts about an arbitrary addition"""
    return z3.And(cond, *[z3.And(k >= 0, k < tr(n)) for k, n in ks])


def options(dist, **kw):
    N, mass, seed = integer("N"), real("mass"), integer("seed")
    CTX.assume(z3.And(N.e >= 1, mass.e > 0, seed.e >= 0))
    return dict({"number": N, "mass": mass, "seed": seed, "initial-distribution": dist}, **kw), N, mass


@contract("C15", [M], params=[1, 2, 3])
def random_global(d):
    ld = LD(d)
    opt, N, mass = options("random-global", **{"fractions": None})
    CTX.events.clear()
    repo().get("bdld.main").init_particles(opt, ld)
    evs = added()
    CTX.check("requested-number", eq(number(), N))
    seen = []
    for ks, c, (_, p, m) in evs:
        hyp = arbitrary(ks, c)
        CTX.check("mass", z3.Implies(hyp, eq(m, mass)))
        for a in range(d):
            x = p.at((a,))
            CTX.check("within-the-range-of-its-dimension", z3.Implies(hyp, z3.And(tb(x >= ld.lo[a]), tb(x <= ld.hi[a]))))
            u = draws_in(tr(x))
            if len(u) != 1:
                raise Unsupported("random numbers of a position")
            u = u[0]
            CTX.check("uniform", eq(x, ld.lo[a] + (ld.hi[a] - ld.lo[a]) * wrap(u)))
            vs = set(str(k) for k, n in ks)
            CTX.check("own-random-number-per-particle", z3.BoolVal(vs <= {str(y) for y in u.children()}))
            CTX.check("own-random-number-per-dimension", z3.BoolVal(not any(u.eq(w) for w in seen)))
            seen.append(u)


def draws_in(t):
    out = []

    def walk(x):
        if z3.is_app(x):
            if x.decl().name().startswith("draw_") and not any(x.eq(y) for y in out):
                if not x.decl().name().startswith("draw_random"):
                    raise Unsupported("kind of random number")
                out.append(x)
                return
            for y in x.children():
                walk(y)
    walk(t)
    return out


def positions(d, k):
    return [[real(f"p{j}_{a}") for a in range(d)] for j in range(k)]


def numbered(pos):
    return {f"pos{j + 1}": SList(p) for j, p in enumerate(pos)}


@contract("C15", [M], params=[(d, k) for d in (1, 2, 3) for k in (1, 2, 3, 4)] + [(1, 12)])
def random_pos(d, k):
    ld = LD(d)
    pos = positions(d, k)
    opt, N, mass = options("random-pos", **{"fractions": None}, **numbered(pos))
    CTX.events.clear()
    repo().get("bdld.main").init_particles(opt, ld)
    evs = added()
    CTX.check("requested-number", eq(number(), N))
    for ks, c, (_, p, m) in evs:
        hyp = arbitrary(ks, c)
        CTX.check("mass", z3.Implies(hyp, eq(m, mass)))
        CTX.check("one-of-the-given-positions", z3.Implies(hyp, z3.Or(*[z3.And(*[eq(p.at((a,)), q[a]) for a in range(d)]) for q in pos])))


@contract("C15", [M, NV], params=[(d, k) for d in (1, 2, 3) for k in (1, 2, 3, 4)] + [(1, 12)])
def fractions_pos(d, k):
    ld = LD(d)
    pos = positions(d, k)
    fr = [real(f"f{j}") for j in range(k)] if k < 10 else [j + 1.0 for j in range(k)]
    tot = 0
    for f in fr:
        if k < 10:
            CTX.assume(f >= 0)
        tot = tot + f
    if k < 10:
        CTX.assume(tot > 0)
    opt, N, mass = options("fractions-pos", fractions=SList(fr), **numbered(pos))
    CTX.events.clear()
    share = [real(f"share{j}") for j in range(k)]
    CTX.fact(z3.And(*[s.e == trr(N * f / tot) for s, f in zip(share, fr)]))
    C = Clock.lemma
    C(None, "shares-add-up", trr(sum(share[1:], share[0])) == z3.ToReal(N.e))
    C(None, "shares-not-negative", z3.And(*[s.e >= 0 for s in share]))
    repo().get("bdld.main").init_particles(opt, ld)
    evs = added()
    at = lambda p: [j for j in range(k) if all(A.same(p.at((a,)), pos[j][a]) for a in range(d))]
    for ks, c, (_, p, m) in evs:
        CTX.check("mass", z3.Implies(arbitrary(ks, c), eq(m, mass)))
        CTX.check("at-a-given-position", z3.Implies(arbitrary(ks, c), z3.Or(*[z3.And(*[eq(p.at((a,)), q[a]) for a in range(d)]) for q in pos])))
        if len(at(p)) != 1:
            raise Unsupported("position is not one of the given ones syntactically")
    num = [number(lambda e: at(e[1]) == [j]) for j in range(k)]
    for j in range(1, k):
        CTX.check(f"rounded-down-share{j}", z3.And(trr(num[j]) <= share[j].e + z3.RealVal("1e-6"), trr(num[j]) > share[j].e - 1))
    CTX.check("requested-number", eq(sum(num[1:], num[0]), N))
    CTX.check("first-gets-at-least-its-share", trr(num[0]) > share[0].e - 1)


@contract("C15", [M, NV], params=[(k, q) for k in (1, 2, 3, 4) for q in (1, 2, 3, 4) if k != q])
def mismatch(k, q):
    ld = LD(1)
    fr = [real(f"f{j}") for j in range(q)]
    tot = 0
    for f in fr:
        CTX.assume(f > 0)
        tot = tot + f
    opt, N, mass = options("fractions-pos", fractions=SList(fr), **numbered(positions(1, k)))
    CTX.events.clear()
    try:
        repo().get("bdld.main").init_particles(opt, ld)
    except Exception as e:
        if not isinstance(e, ValueError):
            raise
        CTX.check("rejected", z3.BoolVal(True))
        CTX.check("before-adding-particles", z3.BoolVal(not added()))
        return
    CTX.check("rejected", z3.BoolVal(False))


@contract("C15", [BP + "BussiParinelloLD.add_particle", OD + "OverdampedLD.add_particle", "bdld/particle.py:Particle.__init__"],
          params=[(k, d, how) for k in ("bp", "od") for d in (1, 2, 3) for how in ("list", "array")])
def add_one(kind, d, how):
    """the contract of add_particle used above, for the real integrators and any number of walkers"""
    n = integer("N")
    CTX.assume(n >= 0)
    s = ldfix.LD(kind, d, True, n=n)
    old = s.parts.snapshot()
    xs, p = c06.arg(how, d)
    m = real("m")
    CTX.assume(m > 0)
    s.ld.add_particle(p, m)
    CTX.check("one-more", eq(s.parts.n, n + 1))
    now = s.parts.snapshot()
    w = s.walker(now, n)
    for a in range(d):
        CTX.check_eq(f"position{a}", w["pos"][a], xs[a])
    CTX.check_eq("mass", w["mass"], m)
    c06.not_shared(p, "new")
    i = integer("i")
    CTX.assume(z3.And(i.e >= 0, i.e < n.e))
    c06.same_walker("others", s.walker(now, i), s.walker(old, i))
