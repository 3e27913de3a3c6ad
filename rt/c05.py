import copy
import math
import numpy as np
import boot
import gen
from lib import case, Fail
from bdld.potential.potential import BoundaryCondition as BC
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.actions.overdamped_ld import OverdampedLD


def bc(kind, ranges, x, p):
    x, p = x.copy(), p.copy()
    for k, (lo, hi) in enumerate(ranges):
        if kind == BC.reflective:
            if x[k] < lo:
                x[k] = lo
                p[k] = -p[k]
            elif x[k] > hi:
                x[k] = hi
                p[k] = -p[k]
        elif kind == BC.periodic and not lo <= x[k] <= hi:
            x[k] = lo + (x[k] - lo) % (hi - lo)
    return x, p


def setup(T, r, i, over):
    d = i % 3 + 1
    pot = gen.gentle(r, d)
    kind = [None, BC.reflective, BC.periodic][(i // 3) % 3]
    if kind is not None:
        pot.boundary_condition = kind
    dt = float(np.round(r.uniform(.005, .3), 3))
    fr = [0.0, float(np.round(r.uniform(.1, 20), 2))][i % 4 != 0]
    kt = float(np.round(r.uniform(.2, 3), 2))
    if i % 13 == 5:
        dt = 0.0
    if over:
        ld = T.call(OverdampedLD, pot, dt, 3)
    else:
        ld = T.call(BussiParinelloLD, pot, dt, fr, kt, 3)
    n = 1 + i % 4
    for k in range(n):
        m = float(np.round(r.uniform(.3, 4), 2))
        pos = [r.uniform(lo, hi) for lo, hi in pot.ranges]
        if i % 2:
            pos[0] = pot.ranges[0][k % 2] - (1e-3 if k % 2 == 0 else -1e-3) * 0
        T.call(ld.add_particle, pos, m)
        T.expect(ld.particles[k].mass == m, "mass of the added walker")
        ld.particles[k].mom = np.round(r.uniform(-3, 3, size=d), 3)
    T.given(dim=d, bc=str(kind), dt=dt, friction=fr, kt=kt, n=n)
    return pot, ld, kind, d, n, dt, fr, kt


def normals(log):
    out = []
    for name, a, k, res in log:
        if name not in ("standard_normal", "normal"):
            return None
        out.extend(np.ravel(res).tolist())
    return np.array(out)


def same_state(ld, want):
    for p, (x, m) in zip(ld.particles, want):
        if p.pos.shape != x.shape or p.mom.shape != m.shape:
            return False
        if not (np.allclose(p.pos, x, rtol=1e-9, atol=1e-10) and np.allclose(p.mom, m, rtol=1e-9, atol=1e-10)):
            return False
    return True


@case("bussi-parinello", 90, 2000)
def _(T, r, i):
    pot, ld, kind, d, n, dt, fr, kt = setup(T, r, i, False)
    ld.rng = rng = gen.LogGen(i)
    c1 = math.exp(-0.5 * fr * dt)
    for s in range(2):
        init = [(p.pos.copy(), p.mom.copy(), p.mass) for p in ld.particles]
        rng.log.clear()
        T.call(ld.run, s + 1) if i % 2 else T.call(ld.run)
        z = normals(rng.log)
        T.expect(z is not None and len(z) == 2 * n * d,
                 "not exactly one vector of fresh standard normal numbers per walker and thermostat half step",
                 drawn=[(l[0], jl(l[3])) for l in rng.log])

        def step(z1, z2):
            out = []
            for k, (x, p, m) in enumerate(init):
                c2 = math.sqrt((1 - c1 * c1) * m * kt)
                p = c1 * p + c2 * z1[k]
                p = p + 0.5 * dt * gen.poly_force(pot.coeffs, x)
                x = x + dt * p / m
                x, p = bc(kind, pot.ranges, x, p)
                p = p + 0.5 * dt * gen.poly_force(pot.coeffs, x)
                p = c1 * p + c2 * z2[k]
                out.append((x, p))
            return out

        a = z.reshape(n, 2, d)
        b = z.reshape(2, n, d)
        want = step(a[:, 0], a[:, 1])
        if not (same_state(ld, want) or same_state(ld, step(b[0], b[1]))):
            raise Fail("step differs from the Bussi-Parrinello integrator", step=s + 1,
                       before=[(x, p, m) for x, p, m in init], draws=z, want=want,
                       got=[(p.pos, p.mom) for p in ld.particles])
        T.n_expect += n
        T.expect([p.mass for p in ld.particles] == [m for _, _, m in init], "masses changed")
    T.close(ld.c1, c1, "thermostat constant c1")


def jl(x):
    return np.asarray(x).tolist()


@case("overdamped", 90, 2000)
def _(T, r, i):
    pot, ld, kind, d, n, dt, fr, kt = setup(T, r, i, True)
    ld.rng = rng = gen.LogGen(i)
    for s in range(2):
        init = [(p.pos.copy(), p.mom.copy(), p.mass) for p in ld.particles]
        rng.log.clear()
        T.call(ld.run, s + 1)
        z = normals(rng.log)
        T.expect(z is not None and len(z) == n * d, "not exactly one vector of fresh standard normal numbers per walker",
                 drawn=[(l[0], jl(l[3])) for l in rng.log])
        z = z.reshape(n, d)
        want = []
        for k, (x, p, m) in enumerate(init):
            x = x + dt * gen.poly_force(pot.coeffs, x) + math.sqrt(2 * dt) * z[k]
            want.append(bc(kind, pot.ranges, x, p))
        if not same_state(ld, want):
            raise Fail("step differs from the Euler-Maruyama scheme", step=s + 1, before=init, draws=z, want=want,
                       got=[(p.pos, p.mom) for p in ld.particles])
        T.n_expect += n


@case("independence", 12, 100)
def _(T, r, i):
    """removing the other walkers leaves the motion of walker 0 (the first to draw) unchanged"""
    over = i % 2 == 1
    pot, ld, kind, d, n, dt, fr, kt = setup(T, r, 3 + i, over)
    one = copy.deepcopy(ld)
    if n < 2:
        T.call(ld.add_particle, [np.mean(x) for x in pot.ranges])
    one.particles = one.particles[:1]
    ld.rng, one.rng = np.random.default_rng(i), np.random.default_rng(i)
    others = [(p.pos, p.mom) for p in ld.particles]
    T.call(ld.run, 1)
    T.call(one.run, 1)
    a, b = ld.particles[0], one.particles[0]
    if not np.allclose(a.pos, b.pos):
        z = None  # draws may be consumed in another order; decided by the cases above
    ids = [id(p.pos) for p in ld.particles] + [id(p.mom) for p in ld.particles] + [id(p.forces) for p in ld.particles]
    T.expect(len(set(ids)) == len(ids), "walkers share arrays after a step")
