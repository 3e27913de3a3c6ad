import math
import numpy as np
import boot
import gen
from lib import case, Fail
from bdld.potential import potential
from bdld.potential.potential import BoundaryCondition as BC
from bdld.potential.polynomial import PolynomialPotential
from bdld.potential.mueller_brown import MuellerBrownPotential


def make(T, r, i, d):
    if i % 11 == 10 and d == 2:
        p = T.call(MuellerBrownPotential)
        return p
    rg = gen.ranges(r, d)
    p = T.call(PolynomialPotential, gen.coeffs(r, d), list(rg))
    T.given(ranges=rg)
    T.expect([tuple(map(float, x)) for x in p.ranges] == rg, "ranges of the potential", got=p.ranges)
    return p


def coord(r, lo, hi, k):
    w = hi - lo
    return [lo, hi, lo - 1e-9, hi + 1e-9, lo - w, hi + w, lo - 0.25 * w, hi + 0.25 * w,
            lo - 3.3 * w, hi + 2.7 * w, lo + 0.5 * w, lo - 2 * w, hi + 3 * w, r.uniform(lo, hi),
            r.uniform(lo - 5 * w, hi + 5 * w), np.nextafter(lo, hi), np.nextafter(hi, lo),
            lo - 1e3 * w, hi + 123.4 * w][k % 19]


def one(T, pot, bc, r, i):
    rg = [tuple(map(float, x)) for x in pot.ranges]
    d = len(rg)
    pos = np.array([coord(r, *rg[k], int(r.randint(0, 19)) if i >= 19 else i + 5 * k) for k in range(d)], dtype=float)
    mom = np.round(r.uniform(-2, 2, size=d), 3)
    if i % 6 == 0:
        mom[0] = 0.0
    p0, m0 = pos.copy(), mom.copy()
    T.given(bc=str(bc), ranges=rg, pos=p0, mom=m0)
    T.call(pot.apply_boundary_condition, pos, mom)
    for k, (lo, hi) in enumerate(rg):
        w = hi - lo
        inside = lo <= p0[k] <= hi
        if bc is None or inside:
            T.expect(pos[k] == p0[k], f"coordinate {k} inside the range (or no boundary condition) was altered", after=pos)
            T.expect(mom[k] == m0[k], f"momentum {k} altered although coordinate is inside / no condition", after=mom)
        elif bc == BC.reflective:
            T.expect(pos[k] == (lo if p0[k] < lo else hi), f"coordinate {k} not on the nearest boundary", after=pos)
            T.expect(mom[k] == -m0[k], f"momentum {k} not reversed", after=mom)
        else:
            eps = 1e-9 * (abs(p0[k]) + abs(lo) + abs(hi) + w)
            T.expect(lo - eps <= pos[k] <= hi + eps, f"coordinate {k} not in range", after=pos)
            n = (pos[k] - p0[k]) / w
            T.expect(abs(n - round(n)) * w <= eps, f"coordinate {k} not moved by a whole number of periods", after=pos)
            T.expect(mom[k] == m0[k], f"momentum {k} changed by the periodic condition", after=mom)
    T.expect([tuple(map(float, x)) for x in pot.ranges] == rg, "ranges changed")


@case("conditions", 180, 4000)
def _(T, r, i):
    bc = [None, BC.reflective, BC.periodic][i % 3]
    pot = make(T, r, i, (i // 3) % 3 + 1)
    if bc is not None:
        pot.boundary_condition = bc
    one(T, pot, bc, r, i // 3)


@case("switching", 20, 300)
def _(T, r, i):
    pot = make(T, r, i, i % 3 + 1)
    other = make(T, r, i + 1, i % 3 + 1)
    for k in range(5):
        bc = [None, BC.reflective, BC.periodic][int(r.randint(0, 3))]
        pot.boundary_condition = bc
        other.boundary_condition = [BC.periodic, None, BC.reflective][int(r.randint(0, 3))]
        T.expect(pot.boundary_condition == bc, "boundary condition not stored")
        one(T, pot, bc, r, 19 + k)


@case("in-dynamics", 12, 120)
def _(T, r, i):
    """the walker is inside the range after every step with a condition set"""
    from bdld.actions.bussi_parinello_ld import BussiParinelloLD
    from bdld.actions.overdamped_ld import OverdampedLD
    d = i % 3 + 1
    pot = gen.gentle(r, d)
    pot.ranges = gen.ranges(r, d)
    pot.boundary_condition = [BC.reflective, BC.periodic][i % 2]
    if i % 4 < 2:
        ld = T.call(BussiParinelloLD, pot, 0.2, 1.0, 4.0, 5 + i)
    else:
        ld = T.call(OverdampedLD, pot, 0.3, 5 + i)
    for _ in range(3):
        T.call(ld.add_particle, [r.uniform(*x) for x in pot.ranges])
    T.given(ranges=pot.ranges, bc=str(pot.boundary_condition), ld=type(ld).__name__)
    for s in range(20):
        T.call(ld.run, s + 1)
        for p in ld.particles:
            for k, (lo, hi) in enumerate(pot.ranges):
                T.expect(lo - 1e-9 <= p.pos[k] <= hi + 1e-9, "walker outside the range after a step", step=s, pos=p.pos)
