import numpy as np
import boot
import gen
from bdsim import *
from lib import case, Fail, Skip, read_table, fields_of


def st(bd):
    s = bd.stats
    return np.array([s.dup_count, s.dup_attempts, s.kill_count, s.kill_attempts], dtype=float)


@case("counts", 100, 2000)
def _(T, r, i):
    n, d = [2, 3, 4, 5][i % 4], i % 3 + 1
    recalc = (i // 4) % 2 == 1
    fac = [2.0, 30.0, 400.0][(i // 8) % 3]
    pot, ld, kt = ensemble(T, r, i, n, d)
    bw = [0.4] * d
    bd = T.call(BirthDeath, ld.particles, 0.01, 5, bw, kt, fac, recalc, None, None, i)
    T.given(n=n, dim=d, recalc=recalc, fac=fac, pos=[p.pos for p in ld.particles])
    fn = lambda s: rates([x["pos"] for x in s], [x["energy"] for x in s], bw, kt)
    T.expect(not st(bd).any(), "statistics do not start at zero")
    dt = 0.05
    for s in range(4):
        a = st(bd)
        before = [fieldsof(p) for p in ld.particles]
        bd.rng = rng = gen.LogGen(77 * i + s)
        ev = as_events(T.call(bd.do_birth_death))
        inc = st(bd) - a
        betas = fn(before)
        T.given(events=ev, rates=betas, increments=inc)
        T.expect(inc[0] + inc[2] == len(ev), "successes do not add up to the number of executed events")
        if np.min(np.abs(betas)) < 1e-9:
            continue
        rand = own_draws(rng.log, n)
        if not recalc:
            T.expect(inc[3] == np.sum(betas > 0), "death attempts are not the walkers with positive rate")
            T.expect(inc[1] == np.sum(betas < 0), "birth attempts are not the walkers with negative rate")
            # initiator: sign of its rate decides death or birth
            amb = 0
            kills = 0
            for dup, kill in ev:
                ck, cd = betas[kill] > 0, betas[dup] < 0
                if rand is not None:
                    ck = ck and rand[kill] <= prob(betas[kill], dt, fac) + 1e-12
                    cd = cd and rand[dup] <= prob(betas[dup], dt, fac) + 1e-12
                amb += ck and cd
                kills += ck and not cd
            T.expect(kills <= inc[2] <= kills + amb, "successful deaths are not the events initiated by a positive rate")
        elif rand is not None and not borderline(betas, rand, dt, fac):
            sols = match_recalc(fn, before, rand, dt, fac, ev)
            if sols:
                T.expect(any((inc[3], inc[1], inc[2], inc[0]) == tuple(x) for x in sols),
                         "attempt / success counts match no processing order", possible=sols[:10])
        T.expect(np.all(inc >= 0), "statistics decreased")


@case("fixed-rates", 40, 400)
def _(T, r, i):
    """all events initiated by one sign: no ambiguity"""
    n = [2, 3, 5, 9][i % 4]
    recalc = (i // 4) % 2 == 1
    pot, ld, kt = ensemble(T, r, i, n, 1)
    bd = T.call(BirthDeath, ld.particles, 0.01, 5, [.4], kt, 30.0, recalc, None, None, i)
    T.need(bd, "calc_betas")
    sign = 1 if (i // 8) % 2 else -1
    betas = sign * np.round(r.uniform(.1, 3, size=n), 3)
    used = []
    bd.calc_betas = lambda: (used.append(1), betas.copy())[1]
    tot = np.zeros(4)
    T.given(n=n, recalc=recalc, rates=betas)
    for s in range(3):
        ev = as_events(T.call(bd.do_birth_death))
        if not used:
            raise Skip("calc_betas not used")
        tot += [len(ev), 0, 0, 0] if sign < 0 else [0, 0, len(ev), 0]
        tot += [0, n, 0, 0] if sign < 0 else [0, 0, 0, n]
        T.close(st(bd), tot, "accumulated statistics (births, birth attempts, deaths, death attempts)", events=ev)


@case("rows", 24, 200)
def _(T, r, i):
    n, d = 4, i % 3 + 1
    stride, sstride = int(r.randint(1, 4)), [None, int(r.randint(1, 6))][i % 3 != 0]
    pot, ld, kt = ensemble(T, r, i, n, d)
    bd = T.call(BirthDeath, ld.particles, 0.01, stride, [.4] * d, kt, 30.0, bool(i % 2), None, None, i, sstride, "stats")
    T.given(stride=stride, stats_stride=sstride, dim=d)
    want = []
    ev_all = []
    real = T.need(bd, "do_birth_death")
    calls = []
    bd.do_birth_death = lambda *a, **k: (calls.append(1), real(*a, **k))[1]
    nst = 13
    for s in range(1, nst + 1):
        k = len(calls)
        T.call(bd.run, s)
        T.expect(len(calls) - k == (s % stride == 0), "birth-death not evaluated exactly at multiples of its stride", step=s)
        if sstride and s % sstride == 0:
            want.append([s] + st(bd).tolist())
    T.call(bd.final_run, nst)
    if not sstride:
        want.append([nst] + st(bd).tolist())
    head, rows = read_table("stats")
    T.close(np.array(rows).reshape(-1, 5), np.array(want).reshape(-1, 5), "rows of the statistics file")
    f = fields_of(head)
    T.expect(f is not None and len(f) == 5, "header of the statistics file", fields=f)
    key = [("step", "time"), ("dup",), ("dup",), ("kill",), ("kill",)]
    for k in range(5):
        T.expect(any(x in f[k] for x in key[k]), "header order of the statistics file", fields=f)
    T.expect("att" in f[2] and "att" in f[4] and "att" not in f[1] and "att" not in f[3], "header order", fields=f)
    x = T.need(bd.stats, "reset")
    T.call(x)
    T.expect(not st(bd).any(), "reset does not clear the statistics")


@case("screen", 6, 20)
def _(T, r, i):
    """output without file: all zero divisions handled"""
    pot, ld, kt = ensemble(T, r, i, 3, 1)
    bd = T.call(BirthDeath, ld.particles, 0.01, 1, [.4], kt, 1e-9 if i % 2 else 50.0, False, None, None, i)
    if i > 1:
        T.call(bd.do_birth_death)
    a = st(bd)
    T.call(bd.final_run, 1)
    T.same(st(bd), a, "printing changed the statistics")
