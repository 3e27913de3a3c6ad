import numpy as np
import boot
import gen
from lib import case, Fail, Skip
from bdld.tools import pos_inside_ranges
from bdld.particle import Particle
from bdld.actions.particle_distribution import ParticleDistributionAction


def states(r, d, ns):
    out = []
    for _ in range(ns):
        st = []
        for _ in range(d):
            a = float(r.randint(-4, 4)) / 2
            st.append((a, a + float(r.randint(0, 6)) / 2))
        out.append(st)
    return out


def inside(x, st):
    return all(lo <= xi <= hi for xi, (lo, hi) in zip(x, st))


@case("membership", 80, 1500)
def _(T, r, i):
    d, n, ns = i % 3 + 1, int(r.randint(1, 9)), 1 + i % 4
    pos = r.randint(-6, 7, size=(n, d)) / 2.0 if i % 2 else np.round(r.uniform(-3, 3, size=(n, d)), 2)
    st = states(r, d, ns)
    T.given(pos=pos, states=st)
    p0 = pos.copy()
    m = T.call(pos_inside_ranges, pos, st)
    T.expect(len(m) == ns, "one mask per state", got=len(m))
    for k in range(ns):
        want = [inside(x, st[k]) for x in pos]
        T.expect(np.asarray(m[k]).shape == (n,), "shape of the mask", got=np.asarray(m[k]).shape)
        T.expect(np.asarray(m[k]).tolist() == want, f"membership in state {k}", got=np.asarray(m[k]).tolist(), want=want)
        T.expect(np.asarray(m[k]).dtype == bool, "mask is not boolean")
    T.same(pos, p0, "positions changed")


@case("counts", 60, 1000)
def _(T, r, i):
    d, n, ns = i % 3 + 1, int(r.randint(1, 9)), 1 + i % 4
    pos = r.randint(-6, 7, size=(n, d)) / 2.0
    st = states(r, d, ns)
    parts = [Particle(list(x)) for x in pos]
    a = T.call(ParticleDistributionAction, parts, st, 1, None)
    T.given(pos=pos, states=st)
    want = [sum(inside(x, s) for x in pos) for s in st]
    T.close(T.call(a.count_particles), want, "particle counts per state")
    T.call(a.run, 1)
    T.close(a.counts[0], [1] + want, "row of the particle distribution")
    # counts follow the walkers and the (shared) list
    parts[0].pos = parts[0].pos + 0.5
    parts.append(Particle([0.0] * d))
    pos = [p.pos for p in parts]
    want = [sum(inside(x, s) for x in pos) for s in st]
    T.call(a.run, 2)
    T.close(a.counts[1], [2] + want, "row of the particle distribution at the second step")
    b = T.call(ParticleDistributionAction, parts, st)
    T.call(b.final_run, 7)
    T.close(b.counts, [7] + want, "final particle distribution without stride")


@case("many", 12, 100)
def _(T, r, i):
    """exact for every share of a larger ensemble"""
    n = [100, 49, 93, 1000, 103, 107][i % 6]
    x = np.sort(r.uniform(0, 1, size=n))
    parts = [Particle([v]) for v in x]
    ks = sorted({int(k) for k in r.randint(0, n, size=12)} | ({29, 57, 58} if n == 100 else set()))
    st = [[(-1.0, float(x[k]))] for k in ks]
    T.given(n=n, upper_boundaries=[s[0][1] for s in st])
    a = T.call(ParticleDistributionAction, parts, st, 1, None)
    T.call(a.run, 1)
    T.close(a.counts[0], [1] + [k + 1 for k in ks], "row of the particle distribution")
