import math
import numpy as np
import boot
import gen
import gridsim
from lib import case, Fail, Skip
from bdld.histogram import Histogram
from bdld.actions.fes_action import calculate_fes
from bdld.actions.delta_f_action import calculate_delta_f
from bdld.tools import pos_inside_ranges


def histo(T, r, i, d):
    nb = [int(r.randint(1, 6)) for _ in range(d)]
    rg = gen.ranges(r, d)
    h = T.call(Histogram, list(nb), list(rg))
    cnt = r.randint(0, [3, 50, 2][i % 3], size=nb).astype(float)
    if not cnt.any():
        cnt[(0,) * d] = 2
    if i % 4 == 0:
        cnt[cnt == 0] = 1
    h.data = cnt.copy()
    return h, nb, rg, cnt


@case("fes", 60, 1000)
def _(T, r, i):
    d = i % 3 + 1
    h, nb, rg, cnt = histo(T, r, i, d)
    kt = float(np.round(r.uniform(.2, 4), 2))
    T.given(counts=cnt, kt=kt, ranges=rg)
    with np.errstate(all="ignore"):
        F = np.where(cnt > 0, -kt * np.log(np.where(cnt > 0, cnt, 1)), np.inf)
    F = F - F.min()
    g = T.call(calculate_fes, h, kt)
    got = np.asarray(g.data)
    T.close(got, F, "free energy of the bins", rtol=1e-9, atol=1e-9)
    T.expect(np.min(got) == 0.0, "minimum is not exactly zero", min=float(np.min(got)))
    T.same(np.asarray(h.data), cnt, "histogram changed by the free energy calculation")
    g.data[(0,) * d] = 99.0
    T.same(np.asarray(h.data), cnt, "free energy shares its data with the histogram")
    cent = [[lo + (hi - lo) * (2 * k + 1) / (2 * m) for k in range(m)] for (lo, hi), m in zip(rg, nb)]
    for a, b in zip(T.call(g.axes), cent):
        T.close(a, b, "grid points of the free energy are not the bin midpoints")
    T.close(T.call(g.points), T.call(h.points), "grid of the free energy differs from the histogram's")


@case("delta-f", 60, 1000)
def _(T, r, i):
    d = i % 3 + 1
    h, nb, rg, cnt = histo(T, r, i, d)
    kt = float(np.round(r.uniform(.2, 4), 2))
    F = T.call(calculate_fes, h, kt).data
    F0 = np.array(F)
    pts = np.array([[lo + (hi - lo) * (2 * k + 1) / (2 * m) for (lo, hi), m, k in zip(rg, nb, idx)]
                    for idx in np.ndindex(*nb)])
    ns = int(r.randint(2, 5))
    states = []
    ctrs = pts[r.randint(0, len(pts), size=ns)]
    pos_bins = pts[cnt.flatten() > 0]
    for k in range(ns):
        c = pos_bins[r.randint(0, len(pos_bins))]
        states.append([(float(c[a] - r.uniform(0, 1.5)), float(c[a] + r.uniform(0, 1.5))) for a in range(d)])
    T.given(counts=cnt, kt=kt, ranges=rg, states=states)
    masks = T.call(pos_inside_ranges, T.call(h.points), states)
    P = []
    for st in states:
        P.append(sum(float(c) for x, c in zip(pts, cnt.flatten())
                     if all(a - 1e-12 <= xi <= b + 1e-12 for xi, (a, b) in zip(x, st))))
    if min(P) <= 0:
        return
    want = [-kt * math.log(p / P[0]) for p in P[1:]]
    T.close(T.call(calculate_delta_f, F, kt, masks), want, "free energy differences to the first state", rtol=1e-8, atol=1e-8)
    T.same(F, F0, "free energy changed by calculating differences")


@case("through-input", 18, 150)
def _(T, r, i):
    """full chain from options: configured kT is used by fes and delta-f"""
    from bdld import main
    from bdld.actions.bussi_parinello_ld import BussiParinelloLD
    from bdld.actions.trajectory_action import TrajectoryAction
    d = i % 3 + 1
    pot = gen.gentle(r, d)
    ldkt = 0.7
    ld = T.call(BussiParinelloLD, pot, 0.05, 1.0, ldkt, 4)
    for _ in range(4):
        T.call(ld.add_particle, [float(r.uniform(-1, 1)) for _ in range(d)])
    ta = T.call(TrajectoryAction, ld, 1, None, False, 5)
    rg = [(-2.0, 2.0 + .5 * k) for k in range(d)]
    nb = [4 + k for k in range(d)]
    hopt = {"min": rg[0][0] if d == 1 else [x[0] for x in rg], "max": rg[0][1] if d == 1 else [x[1] for x in rg],
            "bins": nb[0] if d == 1 else nb, "stride": 1, "reset": [5, 15] if i % 2 else None, "filename": None, "write-stride": None, "fmt": None}
    ha = T.call(main.setup_histogram, hopt, ta)
    kt = [1.3, 0.7, 2.5][i % 3]
    fopt = {"kt": kt, "stride": 10, "filename": None, "write-stride": None, "fmt": None, "plot-stride": None,
            "plot-filename": None, "plot-domain": None, "plot-title": None}
    fa = T.call(main.setup_fes, fopt, ha)
    st = [([-2.0] * d, [0.0] * d), ([-2.0 + .001] * d, [2.5] * d), ([-.5] * d, [3.0] * d)]
    dopt = {"stride": 10, "filename": None, "write-stride": None, "fmt": None}
    for k, (a, b) in enumerate(st):
        dopt[f"state{k+1}-min"], dopt[f"state{k+1}-max"] = a, b
    da = T.call(main.setup_delta_f, dopt, fa)
    for end in (10, 20):
        for s in range(end - 9, end + 1):
            for a in (ld, ta, ha, fa, da):
                T.call(a.run, s)
        cnt = np.array(ha.histo.data)
        T.given(step=end, resets=hopt["reset"], kt=kt, dim=d, counts=cnt, states=st)
        with np.errstate(all="ignore"):
            F = np.where(cnt > 0, -kt * np.log(np.where(cnt > 0, cnt, 1)), np.inf)
        T.close(fa.fes.data, F - F.min(), "free energy with the kT of the [fes] section", rtol=1e-9, atol=1e-9)
        pts = np.array([[lo + (hi - lo) * (2 * k + 1) / (2 * m) for (lo, hi), m, k in zip(rg, nb, idx)]
                        for idx in np.ndindex(*nb)])
        P = [sum(c for x, c in zip(pts, cnt.flatten()) if all(lo <= v <= hi for v, lo, hi in zip(x, a, b))) for a, b in st]
        if min(P) > 0:
            want = [end * 0.05] + [-kt * math.log(p / P[0]) for p in P[1:]]
            T.close(da.delta_f[end // 10 - 1], want, "row of free energy differences", rtol=1e-8, atol=1e-8)
    T.expect(da.kt == kt, "kT of delta-f", got=da.kt)


@case("mask-shape", 3, 3)
def _(T, r, i):
    f = __import__("bdld.actions.delta_f_action", fromlist=["x"])
    chk = T.need(f, "check_mask_shapes")
    T.rejects(lambda: chk([np.ones(4, bool), np.ones(5, bool)], np.zeros(4)), ValueError, "mask of wrong size")
