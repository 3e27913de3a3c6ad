import copy
import math
import numpy as np
import boot
import gen
from simrun import *
from lib import case, Fail, Skip, read_table, fields_of
from bdld.actions import action

FMT = "%.17g"


def params(r, i):
    stride = [1, 2, 3, 5, 7][i % 5] if i < 60 else int(r.randint(1, 12))
    ws = [1, 4, 5, 6, 10, 3][(i // 5) % 6] if i < 60 else int(r.randint(1, 25))
    n = [int(r.randint(1, 40)), ws, 2 * ws, ws + 1, stride, 3 * stride * ws, 1, 2 * ws - 1][i % 8]
    return stride, ws, min(n, 80)


@case("trajectory", 120, 2500)
def _(T, r, i):
    d, np_ = i % 3 + 1, 1 + i % 3
    stride, ws, n = params(r, i)
    momentum = [None, True, False][(i // 2) % 3]
    ld = make_ld(T, r, i, d, np_, over=i % 5 == 4)
    extra = sorted({int(x) for x in r.randint(1, n + 1, size=2)}) if i % 4 == 3 else []
    T.given(dim=d, walkers=np_, stride=stride, write_stride=ws, n_steps=n, momentum=momentum, extra_writes=extra)
    a = T.call(TrajectoryAction, ld, stride, "traj", momentum, ws, FMT)
    rec = {}
    for s in range(1, n + 1):
        T.call(ld.run, s)
        if np_ > 1 and i % 2:  # as birth-death does
            ld.particles[s % np_] = copy.deepcopy(ld.particles[(s + 1) % np_])
        rec[s] = [(p.pos.copy(), p.mom.copy()) for p in ld.particles]
        T.call(a.run, s)
        if s in extra:
            T.call(a.write, s)
    T.call(a.final_run, n)
    for k in range(np_):
        head, rows = read_table(f"traj.{k}")
        want = [[t * ld.dt] + rec[t][k][0].tolist() + (rec[t][k][1].tolist() if momentum else []) for t in mult(n, stride)]
        T.expect(len(rows) == len(want), f"walker {k}: number of rows", times=[x[0] / ld.dt for x in rows][:60], want=mult(n, stride))
        if want:
            T.close(rows, want, f"walker {k}: rows (time, position, momentum) of the sampled steps", rtol=1e-9, atol=1e-12)
        f = fields_of(head)
        T.expect(f is not None and len(f) == 1 + d * (2 if momentum else 1), f"header does not name every column", fields=f)
        T.expect("time" in f[0] and all(x.startswith("pos") for x in f[1:1 + d]) and all(x.startswith("mom") for x in f[1 + d:]),
                 "order of the columns in the header", fields=f)
        T.expect(len(set(f)) == len(f), "repeated column names", fields=f)


@case("trajectory-defaults", 4, 20)
def _(T, r, i):
    d = i % 3 + 1
    ld = make_ld(T, r, i, d, 2)
    a = T.call(TrajectoryAction, ld, None, "traj")
    n = [99, 100, 101, 230][i % 4]
    rec = {}
    for s in range(1, n + 1):
        T.call(ld.run, s)
        rec[s] = [p.pos.copy() for p in ld.particles]
        T.call(a.run, s)
    T.call(a.final_run, n)
    T.given(n_steps=n)
    for k in range(2):
        head, rows = read_table(f"traj.{k}")
        T.close(rows, [[t * ld.dt] + rec[t][k].tolist() for t in range(1, n + 1)], "rows with default strides", rtol=1e-6, atol=2e-9)


@case("no-file", 2, 6)
def _(T, r, i):
    import os
    ld = make_ld(T, r, i, 1, 2)
    a = T.call(TrajectoryAction, ld, 2, None, None, 4)
    for s in range(1, 11):
        T.call(ld.run, s)
        T.call(a.run, s)
    T.call(a.final_run, 10)
    T.expect(os.listdir(".") == [], "files written although no filename was given")


def chain(T, r, i, d, np_):
    ld = make_ld(T, r, i, d, np_)
    ta = T.call(TrajectoryAction, ld, 1, None, None, 1)
    rg = [(-2.0, 2.2)] * d
    nb = [4] * d
    ha = T.call(HistogramAction, ta, nb, rg)
    fa = T.call(FesAction, ha, 1)
    pts = T.call(ha.histo.points)
    masks = [pts[:, 0] < 0.1, pts[:, 0] >= -.2, pts[:, 0] >= .3][: 2 + i % 2]
    return ld, ta, ha, fa, masks


@case("delta-f", 80, 1500)
def _(T, r, i):
    d, np_ = i % 3 + 1, 3
    stride, k, n = params(r, i)
    ws = stride * k
    n = min(n, 40)
    ld, ta, ha, fa, masks = chain(T, r, i, d, np_)
    use_stride = i % 6 != 5
    T.given(dim=d, stride=stride if use_stride else None, write_stride=ws, n_steps=n)
    args = (stride, "df", ws if i % 7 else None, FMT) if use_stride else (None, "df", None, FMT)
    a = T.call(DeltaFAction, fa, masks, *args)
    want = []
    for s in range(1, n + 1):
        for x in (ld, ta, ha, fa):
            T.call(x.run, s)
        P = [np.sum(np.array(ha.histo.data).reshape(-1)[m]) for m in masks]
        with np.errstate(all="ignore"):
            row = [s * ld.dt] + [float(-fa.kt * np.log(p / P[0])) for p in P[1:]]
        if use_stride and s % stride == 0:
            want.append(row)
        T.call(a.run, s)
    T.call(ha.final_run, n)
    T.call(fa.final_run, n)
    T.call(a.final_run, n)
    if not use_stride:
        want = [row]
    head, rows = read_table("df")
    T.expect(len(rows) == len(want), "number of rows", times=[x[0] / ld.dt for x in rows][:60], want=[x[0] / ld.dt for x in want])
    if want:
        T.close(rows, want, "rows (time, free energy differences) of the sampled steps", rtol=1e-7, atol=1e-9)
    f = fields_of(head)
    T.expect(f is not None and len(f) == len(masks), "header does not name every column", fields=f)
    T.expect("time" in f[0], "first column of the header", fields=f)


@case("particle-distribution", 80, 1500)
def _(T, r, i):
    d, np_ = i % 3 + 1, 4
    stride, k, n = params(r, i)
    ws = stride * k
    ld = make_ld(T, r, i, d, np_)
    st = [[(-3.0, 0.1)] * d, [(-.1, 3.0)] * d, [(-1.0, 1.0)] * d][: 1 + i % 3]
    use_stride = i % 6 != 5
    T.given(dim=d, stride=stride if use_stride else None, write_stride=ws, n_steps=n)
    args = (stride, "pd", ws if i % 7 else None, FMT) if use_stride else (None, "pd", None, FMT)
    a = T.call(ParticleDistributionAction, ld.particles, st, *args)
    want = []
    for s in range(1, n + 1):
        T.call(ld.run, s)
        if i % 2:  # as birth-death does
            ld.particles[s % np_] = copy.deepcopy(ld.particles[(s + 1) % np_])
        row = [s] + [sum(all(lo <= v <= hi for v, (lo, hi) in zip(p.pos, x)) for p in ld.particles) for x in st]
        if use_stride and s % stride == 0:
            want.append(row)
        T.call(a.run, s)
    T.call(a.final_run, n)
    if not use_stride:
        want = [row]
    head, rows = read_table("pd")
    T.expect(len(rows) == len(want), "number of rows", steps=[x[0] for x in rows][:60], want=[x[0] for x in want])
    if want:
        T.close(rows, want, "rows (step, counts) of the sampled steps")
    f = fields_of(head)
    T.expect(f is not None and len(f) == 1 + len(st), "header does not name every column", fields=f)
    T.expect("step" in f[0] or "time" in f[0], "first column of the header", fields=f)


@case("strides-rejected", 2, 2)
def _(T, r, i):
    ld, ta, ha, fa, masks = chain(T, r, i, 1, 2)
    if i == 0:
        T.rejects(lambda: DeltaFAction(fa, masks, 3, "df", 10), ValueError, "write stride no multiple of the stride")
    else:
        T.rejects(lambda: ParticleDistributionAction(ld.particles, [[(-1., 1.)]], 3, "pd", 10), ValueError, "write stride no multiple of the stride")


@case("valid-rows", 150, 4000)
def _(T, r, i):
    """row arithmetic of the buffer over arbitrary write points"""
    f = T.need(action, "get_valid_data")
    us = int(r.randint(1, 5))
    rows = int(r.randint(1, 9))
    stride = us * int(r.randint(1, 7))
    data = np.full((rows, 2), -1.0)
    last, got, step = 0, [], 0
    n = int(r.randint(1, 60)) * 1
    T.given(update_stride=us, rows=rows, stride=stride, n_steps=n)
    for step in range(1, n + 1):
        if step % us == 0:
            data[(step // us - 1) % rows] = step
        if step % (rows * us) == 0 or (i % 3 == 2 and r.randint(0, 6) == 0) or step == n:
            v = T.call(f, data, step, stride, us, last)
            got.extend(np.asarray(v)[:, 0].tolist())
            T.expect(np.asarray(v).shape[1] == 2, "columns")
            last = step
    T.expect(got == [float(t) for t in mult(n, stride)], "rows returned over the history are not every multiple of the stride once",
             got=got, want=mult(n, stride))
