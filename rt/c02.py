import math
import numpy as np
import boot
import gen
from bdsim import *
from lib import case, Fail, Skip


def make(T, r, i, n, d, fac, recalc, md=0.02, stride=3, seed=0):
    pot, ld, kt = ensemble(T, r, i, n, d)
    bw = [float(np.round(r.uniform(.2, .8), 2)) for _ in range(d)]
    bd = T.call(BirthDeath, ld.particles, md, stride, bw, kt, fac, recalc, None, None, seed)
    T.given(n=n, dim=d, kt=kt, bw=bw, fac=fac, recalc=recalc, md_dt=md, stride=stride,
            pos=[p.pos for p in ld.particles], energies=[p.energy for p in ld.particles])
    return pot, ld, kt, bw, bd


def rate_fn(bw, kt):
    return lambda st: rates([s["pos"] for s in st], [s["energy"] for s in st], bw, kt)


@case("events", 150, 3000)
def _(T, r, i):
    n, d = [2, 3, 4, 5][i % 4], i % 3 + 1
    recalc = (i // 4) % 2 == 1
    fac = [None, 5.0, 30.0, 400.0][(i // 8) % 4]
    pot, ld, kt, bw, bd = make(T, r, i, n, d, fac, recalc)
    fac = fac or 1.0
    fn = rate_fn(bw, kt)
    for s in range(4):
        bd.rng = rng = gen.LogGen(1000 * i + s)
        before = [fieldsof(p) for p in ld.particles]
        ev = as_events(T.call(bd.do_birth_death))
        rand = own_draws(rng.log, n)
        if rand is None:
            raise Skip("own draws of the walkers not identifiable")
        betas = fn(before)
        T.given(rand=rand, rates=betas, events=ev)
        dt = 0.02 * 3
        if borderline(betas, rand, dt, fac):
            continue
        for a, b in ev:
            T.expect(a != b and 0 <= a < n and 0 <= b < n, "partner is not a different, existing walker", event=[a, b])
        if recalc:
            ok = bool(match_recalc(fn, before, rand, dt, fac, ev))
        else:
            ok = match_bulk(betas, rand, dt, fac, ev)
        T.expect(ok, "no processing order explains the reported events (initiators / direction / rates used)")


@case("forced", 60, 600)
def _(T, r, i):
    """given rates and draws, including draws next to the probability"""
    n = [2, 3, 4, 5][i % 4]
    pot, ld, kt, bw, bd = make(T, r, i, n, 1, 2.0, False)
    dt, fac = 0.06, 2.0
    betas = np.round(r.uniform(-8, 8, size=n), 3)
    if i % 6 == 0:
        betas = np.abs(betas) + 10
    if i % 6 == 1:
        betas = -np.abs(betas) - 10
    if i % 6 == 2:  # probabilities close to one
        betas = np.where(betas < 0, -1, 1) * r.uniform(60, 150, size=n)
    if i % 6 == 3:  # and close to zero
        betas = betas * 1e-4
    used = []
    T.need(bd, "calc_betas")
    bd.calc_betas = lambda: (used.append(1), betas.copy())[1]
    rng = gen.LogGen(i)
    p = 1 - np.exp(-np.abs(betas) * bd.dt * bd.rate_fac)
    exact = int(r.randint(0, n))

    def script(x):
        if np.ndim(x) == 1 and len(x) == n:
            x = np.array(x)
            x[exact] = max(p[exact] - 1e-9, 0.0)  # just below initiates (equality: proof only, the last digit depends on how the formula is written)
            x[(exact + 1) % n] = min(p[(exact + 1) % n] + 1e-6, 1.0)  # just above does not
        return x

    rng.script["random"] = script
    bd.rng = rng
    ev = as_events(T.call(bd.do_birth_death))
    if not used:
        raise Skip("calc_betas not used")
    rand = own_draws(rng.log, n)
    if rand is None:
        raise Skip("own draws of the walkers not identifiable")
    T.given(rates=betas, rand=rand, events=ev, probs=p)
    T.expect(match_bulk(betas, rand, dt, fac, ev), "events do not follow from the draws and rates")


@case("partner-map", 12, 40)
def _(T, r, i):
    """each value of the partner draw selects another walker, all others once"""
    n = i + 2
    pot, ld, kt, bw, bd = make(T, r, i, 2, 1, 1.0, False)
    f = T.need(bd, "random_other")

    class Script:
        def __init__(self):
            self.v, self.size, self.calls = 0, None, 0

        def once(self):
            self.calls += 1
            if self.calls > 1:
                raise Skip("several draws for one partner")

        def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
            if size is not None:
                raise Skip("vector draw")
            self.once()
            lo, hi = (0, low) if high is None else (low, high)
            hi = hi + 1 if endpoint else hi
            self.size = hi - lo
            return np.int64(lo + self.v)

        def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
            if size is not None or p is not None:
                raise Skip("vector draw")
            self.once()
            a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            self.size = len(a)
            return a[self.v]

        def __getattr__(self, name):
            raise Skip(f"partner drawn with {name}")

    for excl in range(n):
        s = Script()
        bd.rng = s
        got = [int(f(n, excl))]
        m = s.size
        if m is None:
            raise Skip("no draw")
        T.given(n=n, excluded=excl)
        T.expect(m == n - 1, "partner draw does not have one value per other walker", values=m)
        for v in range(1, m):
            s.v, s.calls = v, 0
            got.append(int(f(n, excl)))
        T.expect(sorted(got) == [k for k in range(n) if k != excl],
                 "partner draw values do not map one-to-one to the other walkers", got=got)


@case("partner-frequencies", 14, 28)
def _(T, r, i):
    """in a step: partners of a fixed initiator are uniform over the other walkers"""
    n = [2, 3, 4, 5, 3, 4, 5][i % 7]
    init = int(r.randint(0, n)) if i > 3 else n - 1
    sign = 1.0 if i % 2 else -1.0
    recalc = i >= 10
    pot, ld, kt, bw, bd = make(T, r, i, n, 1, 1.0, recalc, seed=5 + i)
    betas = np.full(n, -sign * 1e-13)
    betas[init] = sign * 1e6
    zero = np.full(n, -1e-13)
    used = []

    def cb():
        used.append(1)
        return betas.copy() if len(used) == 1 else zero.copy()

    T.need(bd, "calc_betas")
    bd.calc_betas = cb
    cnt = np.zeros(n)
    N = 600
    for _ in range(N):
        used.clear()
        ev = as_events(T.call(bd.do_birth_death))
        if not used:
            raise Skip("calc_betas not used")
        T.given(n=n, initiator=init, sign=sign)
        T.expect(len(ev) == 1, "exactly one event expected", events=ev)
        me, other = (ev[0][1], ev[0][0]) if sign > 0 else ev[0]
        T.expect(me == init, "wrong direction of the event", event=ev[0])
        T.expect(other != init and 0 <= other < n, "partner is not another existing walker", event=ev[0])
        cnt[other] += 1
    exp = N / (n - 1)
    chi = sum((cnt[k] - exp) ** 2 / exp for k in range(n) if k != init)
    T.expect(chi < 60 + 2 * n, "partners are not uniform over the other walkers", counts=cnt)
