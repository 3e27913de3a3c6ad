import math
import numpy as np
import boot
import gen
from simrun import *
from lib import case, Fail, Skip, read_table, fields_of
from bdld.histogram import Histogram


def setup(r, d):
    rg = [(-1.5 - .1 * k, 1.2 + .3 * k) for k in range(d)]
    nb = [int(r.randint(1, 6)) for _ in range(d)]
    return rg, nb


@case("runs", 110, 2000)
def _(T, r, i):
    d, np_ = i % 3 + 1, 1 + i % 3
    ws = [1, 4, 5, 10, 7][i % 5]
    tstride = [1, 2, 3, 6][(i // 5) % 4]
    hs = [1, 2, 3, 5, 12, None][(i // 2) % 6]
    n = [ws, 2 * ws, 2 * ws + 1, int(r.randint(1, 45)), 3 * ws - 1][(i // 3) % 5]
    fname = [None, "traj"][i % 2]
    ld = make_ld(T, r, i, d, np_)
    rg, nb = setup(r, d)
    reset = None
    if i % 4 == 1 and n > ws:
        reset = [ws * int(r.randint(1, n // ws + 1))]
    hw = [None, ws, 2 * ws][(i // 4) % 3]
    T.given(dim=d, walkers=np_, traj_write_stride=ws, traj_stride=tstride, histo_stride=hs, n_steps=n, traj_file=fname,
            reset=reset, ranges=rg, bins=nb, histo_write_stride=hw)
    ta = T.call(TrajectoryAction, ld, tstride, fname, None, ws)
    ha = T.call(HistogramAction, ta, list(nb), list(rg), hs, reset, "h" if hw else None, hw)
    T.expect(not np.any(ha.histo.data), "a new histogram is not empty", counts=ha.histo.data)
    st = hs or 1
    pos, files = [], {}
    for s in range(1, n + 1):
        T.call(ld.run, s)
        if s % st == 0:
            pos += [p.pos.copy() for p in ld.particles]
        T.call(ta.run, s)
        T.call(ha.run, s)
        if s % ws == 0:
            w = bin_counts(pos, rg, nb)
            if hw and s % hw == 0:
                files[f"h_{s}"] = w.copy()
            if reset and s in reset:
                pos = []
                w = w * 0
            T.close(ha.histo.data, w, f"counts after step {s}", step=s)
    T.call(ta.final_run, n)
    T.call(ha.final_run, n)
    want = bin_counts(pos, rg, nb)
    T.close(ha.histo.data, want, "counts after the final actions: every sampled position once")
    if hw:
        files["h"] = want
        if d < 3:
            for name, w in files.items():
                head, rows = read_table(name)
                T.close(np.array(rows)[:, -1], w.flatten(), f"counts written to {name}")
                f = fields_of(head)
                T.expect(f is not None and len(f) == d + 1, "header of the histogram file", fields=f)


@case("resets", 30, 400)
def _(T, r, i):
    """a reset clears at that very step, whatever the write stride of the trajectory"""
    d, ws = i % 3 + 1, [1, 4, 5, 10, 7][i % 5]
    ld = make_ld(T, r, i, d, 1 + i % 3)
    rg, nb = setup(r, d)
    n = 3 * ws + int(r.randint(0, 6))
    reset = sorted({int(x) for x in r.randint(1, n + 1, size=3)})
    if i % 3:  # in any order, given twice, beyond the last step
        reset = [ws * int(k) for k in r.permutation([3, 1, 2, 2, 3 + n])]
    T.given(dim=d, traj_write_stride=ws, reset=reset, n_steps=n)
    ta = T.call(TrajectoryAction, ld, 1, None, None, ws)
    ha = T.call(HistogramAction, ta, list(nb), list(rg), 1, list(reset))
    pos, fresh = [], []  # counted since the last reset; stored but not added yet
    for s in range(1, n + 1):
        T.call(ld.run, s)
        fresh += [p.pos.copy() for p in ld.particles]
        T.call(ta.run, s)
        T.call(ha.run, s)
        if s % ws == 0:
            pos, fresh = pos + fresh, []
        if s in reset:
            pos = []
            T.expect(not np.any(ha.histo.data), f"counts left after the reset at step {s}", counts=ha.histo.data)
            # whether stored samples from before the reset are added later is not specified
            if fresh:
                return
        T.close(ha.histo.data, bin_counts(pos, rg, nb), f"counts after step {s}", step=s)


@case("histogram", 60, 800)
def _(T, r, i):
    d = i % 3 + 1
    nb = [int(r.choice([1, 2, 4, 5])) if i % 2 else int(r.choice([2, 4, 8])) for _ in range(d)]
    rg = [(float(r.randint(-4, 2)), 0.0) for _ in range(d)]
    rg = [(lo, lo + [1.0, 2.0, 4.0][int(r.randint(0, 3))]) for lo, _ in rg]
    if any(b == 1 for b in nb):
        nb = [2 if b == 1 else b for b in nb]
    h = T.call(Histogram, list(nb) if d > 1 or i % 2 else nb[0], list(rg))
    T.given(ranges=rg, bins=nb)
    T.expect(not np.any(h.data) and h.data.shape == tuple(nb), "a new histogram is not empty", counts=h.data)
    tot = np.zeros(nb)
    for _ in range(3):
        m = int(r.randint(0, 12))
        x = np.array([[r.uniform(lo - .5, hi + .5) for lo, hi in rg] for _ in range(m)]).reshape(m, d)
        if all(b in (2, 4, 8) for b in nb) and m > 1:
            x[: m // 2] = [[lo + (hi - lo) * int(r.randint(0, 9)) / 8 for lo, hi in rg] for _ in range(m // 2)]
        x0 = x.copy()
        T.call(h.add, x)
        T.same(x, x0, "adding changed the data")
        tot += bin_counts(x, rg, nb)
        T.close(h.data, tot, "counts after adding (existing counts kept, every position in its bin)", added=x)
    cent = [[lo + (hi - lo) * (2 * k + 1) / (2 * m) for k in range(m)] for (lo, hi), m in zip(rg, nb)]
    for a, b, e in zip(T.call(h.bin_centers), cent, T.call(h.axes)):
        T.close(a, b, "bin midpoints")
        T.close(e, b, "axes of the histogram are the bin midpoints")
    import itertools
    T.close(T.call(h.points), np.array(list(itertools.product(*cent))), "points of the histogram")
    for k in range(d):
        T.close(h.stepsizes[k], (rg[k][1] - rg[k][0]) / nb[k], "bin width")
    T.call(h.clear)
    T.expect(not np.any(h.data), "clear does not remove the counts")
    x = np.array([[lo + .3 * (hi - lo) for lo, hi in rg]])
    T.call(h.add, x)
    T.close(h.data, bin_counts(x, rg, nb), "counts after clearing and adding")
    h2 = T.call(Histogram, list(nb), list(rg))
    T.expect(not np.any(h2.data), "new histogram shares counts with an older one")


@case("dimensions", 4, 8)
def _(T, r, i):
    ld = make_ld(T, r, i, 2, 2)
    ta = T.call(TrajectoryAction, ld, 1, None, None, 4)
    if i % 2:
        T.rejects(lambda: HistogramAction(ta, [4], [(-1., 1.)]), ValueError, "histogram of wrong dimension")
    else:
        T.rejects(lambda: HistogramAction(ta, [4, 4], [(-1., 1.)]), ValueError, "histogram of wrong dimension")
