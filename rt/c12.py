import copy
import itertools
import math
import operator
import numpy as np
import boot
import gen
import gridsim
from lib import case, Fail, Skip
from bdld import grid


def mk(T, r, d, seed=None):
    rg = gen.ranges(r, d)
    n = [int(r.randint(2, 6)) for _ in range(d)]
    g = T.call(grid.from_npoints, list(rg), list(n))
    return g, rg, n


@case("points", 60, 800)
def _(T, r, i):
    d = i % 3 + 1
    g, rg, n = mk(T, r, d)
    T.given(ranges=rg, n_points=n)
    T.expect(g.n_dim == d and list(g.n_points) == n, "dimension / number of points")
    T.close(T.call(g.points), gridsim.points(rg, n), "points are not the row-major enumeration of the axes", rtol=1e-12, atol=1e-12)
    for a, (lo, hi), m in zip(T.call(g.axes), rg, n):
        T.close(a, gridsim.axis(lo, hi, m), "axis", rtol=1e-12, atol=1e-12)
    for k in range(d):
        T.close(g.ranges[k][1] - g.ranges[k][0], g.stepsizes[k] * (g.n_points[k] - 1), "max - min = stepsize*(n-1)")
        T.close(g.ranges[k], rg[k], "requested range", rtol=0, atol=0)
    w = np.round(r.uniform(-2, 2, size=d), 2)
    T.call(g.set_from_func, lambda p: float(np.dot(w, p) + p[0] ** 2))
    pts = gridsim.points(rg, n)
    want = (pts @ w + pts[:, 0] ** 2).reshape(n)
    T.close(g.data, want, "value at index (i,j,k) is not the function at that point", rtol=1e-9, atol=1e-9)
    idx = tuple(int(r.randint(0, m)) for m in n)
    T.close(g[idx], want[idx], "element access")
    g[idx] = 42.0
    want[idx] = 42.0
    T.close(g.data, want, "element assignment")
    T.close(np.asarray(T.call(g.interpolate, pts, "nearest")).reshape(n), want, "interpolation at the points")


@case("single-number", 6, 20)
def _(T, r, i):
    d = i % 3 + 1
    rg = gen.ranges(r, d)
    g = T.call(grid.from_npoints, rg, 4)
    T.given(ranges=rg)
    T.expect(list(g.n_points) == [4] * d, "single number of points is used for all dimensions", got=g.n_points)
    h = 0.37
    g = T.call(grid.from_stepsizes, rg, h)
    T.expect(list(g.stepsizes) == [h] * d, "single stepsize is used for all dimensions", got=g.stepsizes)


@case("stepsizes", 80, 800)
def _(T, r, i):
    d = i % 3 + 1
    shrink = (i // 3) % 2 == 1
    rg, hs, wn = [], [], []
    for _ in range(d):
        h = [0.25, 0.5, 0.125, 1.0][int(r.randint(0, 4))]
        m = int(r.randint(1, 7))
        frac = [0.0, 0.5, 0.125, 0.25][int(r.randint(0, 4))]  # exactly representable: no rounding ambiguity
        lo = float(r.randint(-4, 4)) / 2
        rg.append((lo, lo + (m + frac) * h))
        hs.append(h)
        wn.append(m + 1 if shrink or frac == 0 else m + 2)
    T.given(ranges=rg, stepsizes=hs, shrink=shrink)
    r0, h0 = copy.deepcopy(rg), list(hs)
    g = T.call(grid.from_stepsizes, rg, hs, shrink) if i % 2 or shrink else T.call(grid.from_stepsizes, rg, hs)
    T.expect(rg == r0 and hs == h0, "arguments changed")
    T.expect(list(g.n_points) == wn, "number of points", got=g.n_points, want=wn)
    T.close(g.stepsizes, hs, "requested stepsizes", rtol=0, atol=0)
    for k in range(d):
        T.close(g.ranges[k][0], rg[k][0], "lower end of the range")
        T.close(g.ranges[k][1], rg[k][0] + hs[k] * (wn[k] - 1), "max - min = stepsize*(n-1)")
    T.expect(g.n_dim == d, "dimension")
    T.close(T.call(g.points), gridsim.points([(a, a + h * (m - 1)) for (a, _), h, m in zip(rg, hs, wn)], wn), "points")
    hs.append(99.0)
    T.expect(len(g.stepsizes) == d, "grid shares the stepsize list of the caller")


@case("float-stepsizes", 30, 300)
def _(T, r, i):
    d = i % 3 + 1
    rg = gen.ranges(r, d)
    hs = [float(np.round(r.uniform(.03, .9), 3)) for _ in range(d)]
    shrink = bool(i % 2)
    g = T.call(grid.from_stepsizes, rg, hs, shrink)
    T.given(ranges=rg, stepsizes=hs, shrink=shrink)
    for k in range(d):
        w = g.ranges[k][1] - g.ranges[k][0]
        T.close(w, g.stepsizes[k] * (g.n_points[k] - 1), "max - min = stepsize*(n-1)")
        x = (rg[k][1] - rg[k][0]) / hs[k]
        if abs(x - round(x)) < 1e-7:
            continue
        T.expect(g.n_points[k] == (math.floor(x) if shrink else math.ceil(x)) + 1, "number of points", got=g.n_points)


OPS = [operator.add, operator.sub, operator.mul, operator.truediv, operator.floordiv, operator.mod, operator.pow]


@case("arithmetic", 84, 1000)
def _(T, r, i):
    d = i % 3 + 1
    g, rg, n = mk(T, r, d)
    a = np.round(r.uniform(.2, 3, size=n), 2)
    b = np.round(r.uniform(.3, 3, size=n), 2)
    g.data = a.copy()
    op = OPS[i % 7]
    kind = (i // 7) % 4
    if op is not operator.pow:  # both signs
        a, b = a * r.choice([-1, 1], size=n), b * r.choice([-1, 1], size=n)
        g.data = a.copy()
    if kind == 0:
        o, ov = T.call(grid.from_npoints, list(rg), list(n)), b
        o.data = b.copy()
    elif kind == 1:
        o = ov = float(np.round(r.uniform(.3, 3), 2)) * (-1 if op is not operator.pow and i % 2 else 1)
    elif kind == 2:
        o = ov = int(r.randint(1, 5)) * (-1 if op is not operator.pow and i % 2 else 1)
    else:
        o, ov = b.copy(), b
    T.given(op=op.__name__, kind=["grid", "float", "int", "array"][kind], ranges=rg, n_points=n, a=a, b=ov)
    res = T.call(op, g, o)
    T.expect(isinstance(res, grid.Grid), "result is not a grid", got=type(res).__name__)
    T.close(res.data, op(a, ov), "result is not point by point")
    T.expect(list(res.n_points) == n, "points of the result")
    T.close(res.ranges, rg, "ranges of the result")
    T.close(res.stepsizes, g.stepsizes, "stepsizes of the result")
    T.same(g.data, a, "left operand changed")
    T.same(o.data if kind == 0 else o, ov, "right operand changed")
    res.data[(0,) * d] = 1e6
    res.n_points[0] = 77
    T.same(g.data, a, "result shares data with the operand")
    T.expect(list(g.n_points) == n, "result shares its geometry with the operand")
    if kind in (1, 2) and op in (operator.add, operator.mul):
        T.close(T.call(op, o, g).data, op(ov, a), "reflected operation")


@case("unary", 24, 200)
def _(T, r, i):
    d = i % 3 + 1
    g, rg, n = mk(T, r, d)
    a = np.round(r.uniform(.2, 3, size=n), 2)
    g.data = a.copy()
    T.given(ranges=rg, n_points=n, a=a)
    for f, w in ((np.exp, np.exp(a)), (np.log, np.log(a)), (operator.neg, -a), (operator.pos, a)):
        res = T.call(f, g)
        T.expect(isinstance(res, grid.Grid), "result is not a grid")
        T.close(res.data, w, f"{f.__name__} point by point")
        T.close(res.ranges, rg, "ranges of the result")
        T.same(g.data, a, f"operand changed by {f.__name__}")
        T.expect(not np.shares_memory(res.data, g.data) or f is operator.pos and False, "result shares data with the operand")
    e = T.call(g.copy_empty)
    e.ranges[0] = (-100.0, 100.0)
    e.n_points[0] = 999
    T.expect(g.n_points == n and list(map(tuple, g.ranges)) == list(map(tuple, rg)), "copy_empty is not independent")


@case("rejects", 30, 100)
def _(T, r, i):
    d = i % 3 + 1
    g, rg, n = mk(T, r, d)
    g.data = np.ones(n)
    n2 = list(n)
    n2[i % d] += 1
    o = T.call(grid.from_npoints, list(rg), n2)
    o.data = np.ones(n2)
    rg2 = list(rg)
    rg2[i % d] = (rg2[i % d][0], rg2[i % d][1] + 0.5)
    o2 = T.call(grid.from_npoints, rg2, list(n))
    o2.data = np.ones(n)
    rg3 = list(rg)
    rg3[i % d] = (rg3[i % d][0] - .25, rg3[i % d][1])
    o3 = T.call(grid.from_npoints, rg3, list(n))
    o3.data = np.ones(n)
    T.given(ranges=rg, n_points=n)
    for op in OPS:
        T.rejects(lambda: op(g, o), ValueError, f"{op.__name__} of grids with different numbers of points")
        T.rejects(lambda: op(g, o2), ValueError, f"{op.__name__} of grids with different ranges")
        T.rejects(lambda: op(g, o3), ValueError, f"{op.__name__} of grids with different ranges")
    if d > 1 and n != n[::-1]:
        o4 = T.call(grid.from_npoints, list(rg), n[::-1])
        o4.data = np.ones(n[::-1])
        T.rejects(lambda: g + o4, ValueError, "grids with permuted numbers of points")
    for size in (math.prod(n) + 1, math.prod(n) - 1, 2 * math.prod(n)):
        def put():
            g.data = np.ones(size)
        T.rejects(put, ValueError, "data of wrong size", size=size)
    T.expect(np.array_equal(g.data, np.ones(n)), "rejected data changed the grid")
    flat = np.arange(float(math.prod(n)))
    g.data = flat
    T.same(g.data, flat.reshape(n), "flat data is stored row-major")
    T.rejects(lambda: grid.from_npoints(list(rg), n + [3]), ValueError, "numbers of points of wrong dimension")
    T.rejects(lambda: g + "text", ValueError, "unsupported operand")
    T.rejects(lambda: g * [1.0], ValueError, "unsupported operand")
    T.expect((g == copy.deepcopy(g)) is True or bool(g == copy.deepcopy(g)), "equality of equal grids")
    h = copy.deepcopy(g)
    h.data[(0,) * d] += 1
    T.expect(not g == h, "equality of different data")


@case("sparsify", 18, 120)
def _(T, r, i):
    d = [1, 2, 3][i % 3]
    rg = gen.ranges(r, d)
    n = [int(r.randint(4, [40, 9, 5][d - 1])) for _ in range(d)]
    g = T.call(grid.from_npoints, rg, n)
    w = np.round(r.uniform(-2, 2, size=d), 2)
    T.call(g.set_from_func, lambda p: float(np.dot(w, p)))
    mx = [int(r.randint(2, m + 3)) for m in n]
    T.given(ranges=rg, n_points=n, max_points=mx)
    d0 = np.array(g.data)
    s = T.call(grid.sparsify, g, mx)
    want = [min(a, b) for a, b in zip(n, mx)]
    T.expect(list(s.n_points) == want, "number of points", got=s.n_points, want=want)
    T.close(s.ranges, rg, "sparsified grid keeps the ranges")
    pts = gridsim.points(rg, want)
    got = np.asarray(s.data).flatten()
    ok = ~np.isnan(got)  # rounding can put corners outside the hull
    T.expect(ok.sum() >= 1, "no values")
    T.close(got[ok], (pts @ w)[ok], "linear data stays attached to its points", rtol=1e-6, atol=1e-6)
    T.same(g.data, d0, "original grid changed")


@case("file", 8, 60)
def _(T, r, i):
    d = i % 2 + 1
    g, rg, n = mk(T, r, d)
    a = np.round(r.uniform(-2, 2, size=n), 4)
    g.data = a.copy()
    T.given(ranges=rg, n_points=n, data=a)
    T.call(g.write_to_file, "g.dat", "%14.9f", "#! FIELDS x v")
    from lib import read_table
    head, rows = read_table("g.dat")
    rows = np.array(rows)
    T.close(rows, np.c_[gridsim.points(rg, n), a.flatten()], "written grid", rtol=1e-6, atol=1e-6)


@case("convolve-valid", 10, 80)
def _(T, r, i):
    d = i % 2 + 1
    g, rg, n = mk(T, r, d)
    n = [m + 5 for m in n]
    h = [0.25, 0.5][:d]
    g = T.call(grid.from_stepsizes, [(0.0, s * (m - 1)) for s, m in zip(h, n)], h)
    nk = [int(r.randint(1, 3)) * 2 + 1 for _ in range(d)]
    nk = [min(k, m) for k, m in zip(nk, n)]
    k = T.call(grid.from_stepsizes, [(0.0, s * (m - 1)) for s, m in zip(h, nk)], h)
    a, b = np.round(r.uniform(0, 2, size=n), 2), np.round(r.uniform(0, 2, size=nk), 2)
    g.data, k.data = a.copy(), b.copy()
    if any(x > y for x, y in zip(nk, n)):
        raise Skip("kernel larger")
    T.given(n=n, nk=nk, stepsizes=h)
    c = T.call(grid.convolve, g, k, "valid", "direct")
    full = gridsim.conv_full(a, b) * math.prod(h)
    want = full[tuple(slice(x - 1, y) for x, y in zip(nk, n))]
    T.close(c.data, want, "valid convolution")
    T.close(c.stepsizes, h, "stepsizes of the convolution")
    T.close(c.ranges, [((x - 1) / 2 * s, s * (y - 1) - (x - 1) / 2 * s) for x, y, s in zip(nk, n, h)], "ranges of the convolution")
    o = T.call(grid.from_npoints, [(0.0, 1.0)] * d, [4] * d)
    o.data = np.ones([4] * d)
    T.rejects(lambda: grid.convolve(g, o), ValueError, "convolution of grids with different spacing")
