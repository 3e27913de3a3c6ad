import math
from fractions import Fraction
import numpy as np
import boot
import gen
from lib import case, Fail, Skip
from bdld import main
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.actions.overdamped_ld import OverdampedLD


def mk(T, r, i, d):
    pot = gen.gentle(r, d)
    pot.ranges = gen.ranges(r, d)
    return pot, (T.call(OverdampedLD, pot, .01, 1) if i % 4 == 3 else T.call(BussiParinelloLD, pot, .01, 1., 1., 1))


def base(n, m, dist, seed):
    return {"number": n, "mass": m, "seed": seed, "initial-distribution": dist}


def common(T, ld, n, m):
    T.expect(len(ld.particles) == n, "number of particles", got=len(ld.particles), want=n)
    for p in ld.particles:
        T.expect(p.mass == m, "mass of the particles", got=p.mass, want=m)
    ids = [id(p) for p in ld.particles] + [id(p.pos) for p in ld.particles]
    T.expect(len(set(ids)) == len(ids), "particles share state")


@case("random-global", 30, 300)
def _(T, r, i):
    d = i % 3 + 1
    pot, ld = mk(T, r, i, d)
    n = [1, 2, 17, 400][i % 4]
    m = [1.0, 2.5][i % 2]
    opt = base(n, m, "random-global", [3, 0, None][i % 3])
    T.given(options=opt, ranges=pot.ranges)
    T.call(main.init_particles, opt, ld)
    common(T, ld, n, m)
    x = np.array([p.pos for p in ld.particles])
    for k, (lo, hi) in enumerate(pot.ranges):
        T.expect(np.all((x[:, k] >= lo) & (x[:, k] <= hi)), "particle outside the range of its dimension", dim=k)
        if n >= 400:
            u = np.sort((x[:, k] - lo) / (hi - lo))
            ks = np.max(np.abs(u - (np.arange(n) + .5) / n))
            T.expect(ks * math.sqrt(n) < 3.5, "positions are not uniform", dim=k, ks=ks)
    if n >= 17:
        T.expect(len(set(map(tuple, x))) == n, "positions are repeated")


@case("random-pos", 30, 300)
def _(T, r, i):
    d = i % 3 + 1
    pot, ld = mk(T, r, i, d)
    n, npos, m = [1, 5, 60][i % 3], int(r.randint(1, 5)), [1.0, .5][i % 2]
    pos = [[float(np.round(r.uniform(lo, hi), 3)) for lo, hi in pot.ranges] for _ in range(npos)]
    opt = base(n, m, "random-pos", [3, 0, None][i % 3])
    for k, p in enumerate(pos):
        opt[f"pos{k+1}"] = list(p)
    T.given(options=opt)
    T.call(main.init_particles, opt, ld)
    common(T, ld, n, m)
    seen = set()
    for p in ld.particles:
        T.expect(tuple(p.pos) in {tuple(q) for q in pos}, "particle is at none of the given positions", got=p.pos)
        seen.add(tuple(p.pos))
    if n >= 60:
        T.expect(len(seen) == npos, "a given position is never used", used=sorted(seen))


@case("fractions-pos", 80, 1500)
def _(T, r, i):
    d = i % 3 + 1
    pot, ld = mk(T, r, i, d)
    npos, m = 1 + i % 4, [1.0, 3.0][i % 2]
    n = int(r.choice([1, 2, 3, 7, 10, 25, 100, 30]))
    kind = (i // 4) % 4
    if kind == 0:
        fr = [float(r.randint(1, 10)) for _ in range(npos)]
    elif kind == 1:
        fr = [round(float(r.randint(1, 10)) / 10, 1) for _ in range(npos)]
    elif kind == 2:
        fr = [[1.0], [.5, .5], [.1, .2, .7], [.3, .3, .3, .1]][npos - 1]
    else:
        fr = [round(float(r.uniform(0, 1)), 2) for _ in range(npos)]
        fr[0] += 0.01
    if i % 9 == 8 and npos > 1:
        fr[-1] = 0.0
    pos = [[float(np.round(r.uniform(lo, hi), 3)) for lo, hi in pot.ranges] for _ in range(npos)]
    opt = base(n, m, "fractions-pos", None)
    for k, p in enumerate(pos):
        opt[f"pos{k+1}"] = list(p)
    opt["fractions"] = list(fr)
    T.given(options=opt)
    F = [Fraction(repr(round(x, 6))) for x in fr]
    tot = sum(F)
    want = [math.floor(n * f / tot) for f in F]
    want[0] += n - sum(want)
    T.call(main.init_particles, opt, ld)
    common(T, ld, n, m)
    got = [sum(tuple(p.pos) == tuple(q) for p in ld.particles) for q in pos]
    T.expect(got == want, "numbers of particles at the positions", got=got, want=want)


@case("mismatch", 12, 30)
def _(T, r, i):
    d = i % 3 + 1
    pot, ld = mk(T, r, i, d)
    opt = base(10, 1.0, "fractions-pos", None)
    for k in range(2 + i % 2):
        opt[f"pos{k+1}"] = [float(np.mean(x)) + .01 * k for x in pot.ranges]
    opt["fractions"] = [[.5], [.2, .2, .2, .4]][(i // 3) % 2]
    T.given(options=opt)
    T.rejects(lambda: main.init_particles(opt, ld), Exception, "number of fractions different from number of positions")
    T.expect(len(ld.particles) == 0, "particles created although the input is rejected", n=len(ld.particles))
