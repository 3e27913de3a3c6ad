"""Arbitrary grids."""
from .common import *

G = "bdld/grid.py:"


def geometry(d, name="", nmin=2, stepwise=False):
    """arbitrary ranges and numbers of points"""
    rg, n = [], []
    for i in range(d):
        lo, hi, k = real(f"{name}lo{i}"), real(f"{name}hi{i}"), integer(f"{name}n{i}")
        CTX.assume(z3.And(tb(lo < hi), tb(k >= nmin)))
        rg.append((lo, hi))
        n.append(k)
    return rg, n


def values(name, d):
    f = z3.Function(name, *[I] * d, R)
    return lambda idx: wrap(f(*[tr(i) for i in idx]))


def data_array(name, n):
    f = values(name, len(n))
    return from_fn(tuple(n), f), f


def gidx(n, name="i"):
    """arbitrary index into an array of shape n"""
    out = []
    for a, m in enumerate(n):
        i = integer(f"{name}{a}")
        CTX.assume(z3.And(i.e >= 0, i.e < tr(m)))
        out.append(i)
    return tuple(out)


def each(n, name="i"):
    """one arbitrary index, or all of them for small concrete shapes"""
    n = [k if isinstance(k, int) else (int(c) if (c := core.num_const(z3.simplify(tr(k)))) is not None else k) for k in n]
    if all(isinstance(k, int) for k in n) and A.shape_size(n) <= A.MAXCELLS:
        return list(A.all_idx(n))
    return [gidx(n, name)]


def point(rg, n, idx):
    """position of grid point idx"""
    return [lo + i * ((hi - lo) / (m - 1)) for (lo, hi), m, i in zip(rg, n, idx)]


def flat_at(arr, idx, n, *rest):
    """element of a flattened (row-major) array at composite index idx"""
    d0 = arr.shape[0]
    if isinstance(d0, A.Prod):
        if len(d0) == len(idx) and all(A.same(a, b) for a, b in zip(d0, n)):
            return arr.at((tuple(idx),) + rest)
        if len(d0) != len(idx) and len(n) == 1 and A.same(A.dim_size(d0), n[0]):
            return arr.at((A.unflat(idx[0], d0),) + rest)
        raise Unsupported("flattened dimensions")
    m = idx[0]
    for a in range(1, len(idx)):
        q = m * n[a] + idx[a]
        CTX.hint_div(q, n[a], m, idx[a])
        m = q
    return arr.at((m,) + rest)


def mkgrid(mod, d, name=""):
    rg, n = geometry(d, name)
    g = mod.from_npoints(SList(rg), SList(n))
    return g, rg, n


def with_data(mod, d, name="", vname="v"):
    g, rg, n = mkgrid(mod, d, name)
    arr, f = data_array(name + vname, n)
    g.data = arr
    return g, rg, n, f


def geometry_checks(label, g, rg, n):
    d = len(n)
    CTX.check(f"{label}.n_dim", z3.BoolVal(g.n_dim == d))
    CTX.check(f"{label}.lengths", z3.BoolVal(len(g.ranges) == d and len(g.n_points) == d and len(g.stepsizes) == d))
    for a in range(d):
        CTX.check(f"{label}.n_points{a}", eq(g.n_points[a], n[a]))
        CTX.check_eq(f"{label}.lower{a}", g.ranges[a][0], rg[a][0])
        CTX.check_eq(f"{label}.upper{a}", g.ranges[a][1], rg[a][1])
        CTX.check_eq(f"{label}.max-min=stepsize*(n-1).{a}", g.ranges[a][1] - g.ranges[a][0], g.stepsizes[a] * (g.n_points[a] - 1))
