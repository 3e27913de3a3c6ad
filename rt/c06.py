import copy
import math
import numpy as np
import boot
import gen
from lib import case, Fail
from bdld.potential.potential import BoundaryCondition as BC
from bdld.potential.mueller_brown import MuellerBrownPotential
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.actions.birth_death import BirthDeath


def oracle(pot, x):
    if isinstance(pot, MuellerBrownPotential):
        return gen.mb_energy(pot.scaling_factor, x), gen.mb_force(pot.scaling_factor, x)
    return gen.poly_energy(pot.coeffs, x), gen.poly_force(pot.coeffs, x)


def consistent(T, ld, what):
    for k, p in enumerate(ld.particles):
        e, f = oracle(ld.pot, p.pos)
        tol = dict(rtol=1e-7, atol=1e-8 * (1 + abs(e) + float(np.max(np.abs(f)))))
        T.close(p.energy, e, f"{what}: stored energy of walker {k} is not the energy at its position", pos=p.pos, **tol)
        T.close(p.forces, f, f"{what}: stored forces of walker {k} are not the forces at its position", pos=p.pos, **tol)
        if hasattr(ld, "c1"):
            T.close(p.c2, math.sqrt((1 - ld.c1 ** 2) * p.mass * ld.kt), f"{what}: thermostat constant of walker {k}",
                    mass=p.mass)
        T.expect(len(p.mom) == len(p.pos) == ld.pot.n_dim, "dimension of walker")


def snap(p):
    return (id(p), p.pos.copy(), p.mom.copy(), p.mass, float(p.energy), np.array(p.forces), getattr(p, "c2", None))


def eq(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


@case("histories", 60, 1500)
def _(T, r, i):
    d = i % 3 + 1
    pot = gen.gentle(r, d)
    if i % 9 == 4:
        d, pot = 2, T.call(MuellerBrownPotential, 0.05)
    kind = [None, BC.reflective, BC.periodic][(i // 3) % 3]
    if kind is not None:
        pot.boundary_condition = kind
    over = (i // 2) % 2
    dt = float(np.round(r.uniform(.01, .05), 3))
    ld = T.call(OverdampedLD, pot, dt, 1 + i) if over else \
        T.call(BussiParinelloLD, pot, dt, float(r.uniform(0, 4)), float(r.uniform(.3, 1.2)), 1 + i)
    hist = []
    T.given(dim=d, bc=str(kind), ld=type(ld).__name__, history=hist)
    bd = None

    def rpos():
        return [float(np.round(r.uniform(lo, hi), 3)) for lo, hi in pot.ranges]

    for _ in range(14):
        n = len(ld.particles)
        op = r.choice(["add", "insert", "overwrite", "remove", "step", "bd", "bad"])
        before = [snap(p) for p in ld.particles]
        if n == 0 and op in ("insert", "overwrite", "remove", "step", "bd"):
            op = "add"
        hist.append(op)
        if op in ("add", "insert", "overwrite"):
            pos = rpos()
            arg = [pos, np.array(pos)][int(r.randint(0, 2))]
            m = float(np.round(r.uniform(.3, 3), 2))
            if op == "add":
                default_m = r.randint(0, 2)
                if default_m:
                    T.call(ld.add_particle, arg)
                    m = 1.0
                else:
                    T.call(ld.add_particle, arg, m)
                k = n
            elif op == "insert":
                k = int(r.randint(0, n + 1))
                if n > 1 and r.randint(0, 3) == 0:
                    k = int(r.randint(-n, -1))  # counted from the end (-1 is the default: append)
                hist[-1] += f" {k}"
                T.call(ld.add_particle, arg, m, k)
                k = k + n if k < 0 else k
            else:
                k = int(r.randint(0, n))
                if r.randint(0, 4) == 0:
                    k = n - 1
                    hist[-1] += " -1"
                    T.call(ld.add_particle, arg, m, overwrite=True)
                else:
                    k = k - n if r.randint(0, 3) == 0 else k
                    hist[-1] += f" {k}"
                    T.call(ld.add_particle, arg, m, k, True)
                    k = k + n if k < 0 else k
            want_n = n + (op != "overwrite")
            T.expect(len(ld.particles) == want_n, f"{op}: number of walkers", got=len(ld.particles))
            p = ld.particles[k]
            T.same(p.pos, np.array(pos, float), f"{op}: position of the new walker at index {k}")
            T.same(p.mom, np.zeros(d), f"{op}: momentum of the new walker")
            T.expect(p.mass == m, f"{op}: mass of the new walker", got=p.mass, want=m)
            rest = [snap(q) for j, q in enumerate(ld.particles) if j != k]
            old = before if op != "overwrite" else before[:k] + before[k + 1:]
            T.expect(len(rest) == len(old) and all(eq(a, b) for a, b in zip(rest, old)),
                     f"{op}: another entry than the addressed one changed")
            if isinstance(arg, np.ndarray):
                arg += 1.0  # the caller's array must not be the walker's
                T.same(p.pos, np.array(pos, float), f"{op}: walker shares the position array of the caller")
        elif op == "remove":
            k = int(r.randint(0, n))
            k = k - n if r.randint(0, 3) == 0 else k
            hist[-1] += f" {k}"
            T.call(ld.remove_particle, k)
            k = k + n if k < 0 else k
            now = [snap(q) for q in ld.particles]
            old = before[:k] + before[k + 1:]
            T.expect(len(now) == len(old) and all(eq(a, b) for a, b in zip(now, old)),
                     "remove: not exactly the addressed walker was removed")
        elif op == "step":
            for s in range(int(r.randint(1, 4))):
                T.call(ld.run, s + 1)
            T.expect(len(ld.particles) == n, "step changed the number of walkers")
        elif op == "bd":
            if n >= 2:
                bd = T.call(BirthDeath, ld.particles, dt, 1, [0.5] * d, ld.kt, 40.0, bool(r.randint(0, 2)), None, None, 9)
                T.call(bd.run, 1)
                T.expect(len(ld.particles) == n, "birth-death changed the number of walkers")
        else:
            wrong = [0.1] * (d + 1) if r.randint(0, 2) or d == 1 else [0.1] * (d - 1)
            T.rejects(lambda: ld.add_particle(wrong), ValueError, "walker of wrong dimension")
            now = [snap(q) for q in ld.particles]
            T.expect(len(now) == n and all(eq(a, b) for a, b in zip(now, before)), "rejected walker changed the ensemble")
        consistent(T, ld, f"after {hist[-1]}")
