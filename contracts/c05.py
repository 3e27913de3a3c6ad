"""C05 one integration step."""
from .ldfix import *

TRUSTED = NP + ["numpy.random.Generator.standard_normal: every call returns fresh numbers of the requested shape",
                "Potential.evaluate / apply_boundary_condition: replaced by their contracts (functions of position, momentum; C07, C08)"]
ASSUMPTIONS = [REALS]


@contract("C05", [BP + "BussiParinelloLD.__init__", BP + "BussiParinelloLD.run", BP + "BussiParinelloLD.add_particle"],
          params=[(d, b) for d in (1, 2, 3) for b in (True, False)])
def bussi_parrinello_step(d, boundary):
    s = LD("bp", d, boundary)
    i = s.generic()
    w = s.walker(s.parts.snapshot(), i)
    s.ld.run(integer("step"))
    CTX.check("same-list", z3.BoolVal(s.ld.particles is s.parts))
    CTX.check("number-of-walkers", eq(s.parts.n, s.n))
    v = s.walker(s.parts.snapshot(), i)
    s.check_inferred(v)
    dr, why = draws_of(CTX.events, s.ld.rng, s.n, i, d)
    if dr is None and why != "shape of the draws":
        CTX.check("own-fresh-normal-draws: " + why, z3.BoolVal(False))
        return
    if dr is None:
        raise Unsupported(why)
    CTX.check("two-noise-vectors-per-walker", z3.BoolVal(len(dr) == 2 * d))
    if len(dr) != 2 * d:
        return
    r1, r2 = dr[:d], dr[d:]
    c1, c2, dt = s.c1(), s.c2(w["mass"]), s.dt
    p = [c1 * w["mom"][a] + c2 * r1[a] for a in range(d)]
    p = [p[a] + 0.5 * w["forces"][a] * dt for a in range(d)]
    x = [w["pos"][a] + p[a] / w["mass"] * dt for a in range(d)]
    x, p = s.pot.bc(x, p)
    f = s.pot.f(x)
    p = [p[a] + 0.5 * f[a] * dt for a in range(d)]
    p = [c1 * p[a] + c2 * r2[a] for a in range(d)]
    for a in range(d):
        CTX.check_eq(f"position{a}", v["pos"][a], x[a])
        CTX.check_eq(f"momentum{a}", v["mom"][a], p[a])
        CTX.check_eq(f"forces{a}", v["forces"][a], f[a])
    CTX.check_eq("energy", v["energy"], s.pot.e(x))
    for q in w:
        if q in ("mass", "c2", "tag__"):
            CTX.check(f"unchanged.{q}", eq(v[q], w[q]))


@contract("C05", [OD + "OverdampedLD.__init__", OD + "OverdampedLD.run", OD + "OverdampedLD.add_particle"],
          params=[(d, b) for d in (1, 2, 3) for b in (True, False)])
def overdamped_step(d, boundary):
    s = LD("od", d, boundary)
    i = s.generic()
    w = s.walker(s.parts.snapshot(), i)
    s.ld.run(integer("step"))
    CTX.check("same-list", z3.BoolVal(s.ld.particles is s.parts))
    CTX.check("number-of-walkers", eq(s.parts.n, s.n))
    v = s.walker(s.parts.snapshot(), i)
    s.check_inferred(v)
    dr, why = draws_of(CTX.events, s.ld.rng, s.n, i, d)
    if dr is None and why != "shape of the draws":
        CTX.check("own-fresh-normal-draws: " + why, z3.BoolVal(False))
        return
    if dr is None:
        raise Unsupported(why)
    CTX.check("one-noise-vector-per-walker", z3.BoolVal(len(dr) == d))
    if len(dr) != d:
        return
    nf_ = core.sym_sqrt(2 * s.dt)
    x = [w["pos"][a] + s.dt * w["forces"][a] + nf_ * dr[a] for a in range(d)]
    x, p = s.pot.bc(x, w["mom"])
    f = s.pot.f(x)
    for a in range(d):
        CTX.check_eq(f"position{a}", v["pos"][a], x[a])
        CTX.check_eq(f"momentum{a}", v["mom"][a], p[a])
        CTX.check_eq(f"forces{a}", v["forces"][a], f[a])
    CTX.check_eq("energy", v["energy"], s.pot.e(x))
    for q in w:
        if q in ("mass", "c2", "tag__"):
            CTX.check(f"unchanged.{q}", eq(v[q], w[q]))


@contract("C05", [BP + "BussiParinelloLD.__init__", BP + "BussiParinelloLD.add_particle"])
def thermostat_constants():
    s = LD("bp", 2, False)
    CTX.check_eq("c1", s.ld.c1, s.c1())
    CTX.check_eq("c2", s.sample.c2, s.c2(s.m0))
