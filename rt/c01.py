import copy
import numpy as np
import boot
import gen
from bdsim import *
from lib import case, Fail


def check(T, before, parts, n, ids, lst, events, what):
    T.expect(len(parts) == n, f"{what}: number of walkers changed", got=len(parts), want=n)
    for dup, kill in events:
        T.expect(0 <= dup < n and 0 <= kill < n, f"{what}: event refers to a walker that does not exist", event=[dup, kill])
    want = apply_events(before, events)
    for k in range(n):
        got = fieldsof(parts[k])
        if not same_fields(got, want[k]):
            diff = [f for f in set(got) | set(want[k]) if f not in got or f not in want[k] or
                    not same_fields({f: got[f]}, {f: want[k][f]})]
            killed = any(e[1] == k for e in events)
            raise Fail(f"{what}: walker {k} ({'killed' if killed else 'not killed'}) has wrong {diff}",
                       events=events, got={f: got.get(f) for f in diff}, want={f: want[k].get(f) for f in diff})
        T.n_expect += 1
    for k in range(n):
        if not any(e[1] == k for e in events):
            T.expect(id(parts[k]) == ids[k] or same_fields(fieldsof(parts[k]), before[k]), "untouched walker replaced")
    check_unshared(T, parts, what)


@case("step", 80, 2000)
def _(T, r, i):
    n, d = [2, 3, 4, 5, 8, 20][i % 6], i % 3 + 1
    pot, ld, kt = ensemble(T, r, i, n, d)
    if i % 8 == 7:  # walkers at the same place, with momenta of their own
        for p in ld.particles:
            p.pos[:] = ld.particles[0].pos
            p.energy, p.forces = pot.evaluate(p.pos)
    recalc = (i // 2) % 2 == 1
    T.given(n=n, dim=d, recalc=recalc, kt=kt, pos=[p.pos for p in ld.particles])
    bd = T.call(BirthDeath, ld.particles, 0.01, 5, [0.3] * d, kt, float([1, 50, 1000][i % 3]), recalc, None, None, i)
    T.expect(bd.particles is ld.particles, "birth-death does not act on the list shared with the dynamics")
    for s in range(3):
        before = [fieldsof(p) for p in ld.particles]
        ids = [id(p) for p in ld.particles]
        ev = as_events(T.call(bd.do_birth_death))
        T.given(events=ev)
        T.expect(bd.particles is ld.particles, "birth-death replaced the shared particle list")
        check(T, before, ld.particles, n, ids, ld.particles, ev, f"step {s}")
        if s == 1:
            T.call(ld.run, s)


@case("moves", 60, 1000)
def _(T, r, i):
    n, d = int(r.randint(2, 7)), i % 3 + 1
    pot, ld, kt = ensemble(T, r, i, n, d)
    bd = T.call(BirthDeath, ld.particles, 0.01, 5, [0.3] * d, kt)
    f = T.need(bd, "perform_moves")
    if i % 4 == 3:
        for p in ld.particles[1:]:
            p.pos[:] = ld.particles[0].pos
            p.energy, p.forces = pot.evaluate(p.pos)
    ev = []
    for _ in range(int(r.randint(0, 6))):
        a = int(r.randint(0, n))
        b = int(r.choice([x for x in range(n) if x != a]))
        ev.append((a, b))
    if i % 5 == 0:  # chains: a killed walker is duplicated afterwards and vice versa
        ev = [(0, 1), (1, n - 1)] if n > 2 else [(0, 1), (1, 0)]
    if i % 5 == 1 and n > 2:
        ev = [(0, 1), (0, 2), (2, 0), (1, 2)]
    T.given(n=n, dim=d, events=ev)
    before = [fieldsof(p) for p in ld.particles]
    ids = [id(p) for p in ld.particles]
    T.call(f, list(ev))
    check(T, before, ld.particles, n, ids, ld.particles, ev, "perform_moves")


@case("after-dynamics", 10, 100)
def _(T, r, i):
    """copies stay independent during later integration steps: two identical ensembles, one with deep copies"""
    n, d = 4, i % 3 + 1
    pot, ld, kt = ensemble(T, r, i, n, d)
    bd = T.call(BirthDeath, ld.particles, 0.01, 1, [0.3] * d, kt, 500.0, bool(i % 2), None, None, i)
    ev = as_events(T.call(bd.do_birth_death))
    T.given(events=ev)
    ref = copy.deepcopy(ld)
    ref.particles = [copy.deepcopy(p) for p in ld.particles]
    ld.rng, ref.rng = np.random.default_rng(1), np.random.default_rng(1)
    for s in range(3):
        T.call(ld.run, s)
        T.call(ref.run, s)
    for a, b in zip(ld.particles, ref.particles):
        T.same(a.pos, b.pos, "walkers influence each other after a birth-death step")
        T.same(a.mom, b.mom, "walkers influence each other after a birth-death step")
