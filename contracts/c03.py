"""C03 birth-death rates."""
from .bdfix import *
from .gridfix import *

TRUSTED = ["scipy pdist/squareform: condensed pairwise squared distances and the symmetric matrix with zero diagonal",
           "numpy exp/log/mean/sum/prod/fill_diagonal (contracts of engine/npshim.py)",
           "scipy griddata behind Grid.interpolate: one value per point, a function of the point (fill value outside)"]
ASSUMPTIONS = [REALS, "the walker density is positive (each walker contributes its own kernel maximum), so no log of zero"]


@contract("C03", [BD + "calc_kernel"], params=[1, 2, 3])
def kernel_values(d):
    m = repo().get("bdld.actions.birth_death")
    n = integer("n")
    CTX.assume(n >= 0)
    x = z3.Function("x", I, I, R)
    bw = bandwidths(d)
    r = m.calc_kernel(from_fn((n, d), lambda i: wrap(x(tr(i[0]), tr(i[1])))), asarray(bw))
    i = integer("i")
    CTX.assume(z3.And(i.e >= 0, i.e < n.e))
    CTX.check("one-value-per-distance", z3.BoolVal(r.ndim == 1 and A.same(r.shape[0], n)))
    CTX.check_eq("gaussian-product-kernel", r.at((i,)), kernel([wrap(x(i.e, z3.IntVal(a))) for a in range(d)], bw))


@contract("C03", [BD + f for f in ("walker_density", "_walker_density_pdist", "_walker_density_manual", "calc_kernel")],
          params=[(d, f) for d in (1, 2, 3) for f in ("walker_density", "_walker_density_pdist", "_walker_density_manual")])
def average_kernel(d, fn):
    """any number of walkers"""
    m = repo().get("bdld.actions.birth_death")
    f = getattr(m, fn, None)
    if f is None:
        raise Unsupported(f"no function {fn}")
    n = integer("N")
    CTX.assume(n >= 1)
    xf = z3.Function("x", I, I, R)
    x = lambda i, a: wrap(xf(tr(i), z3.IntVal(a) if isinstance(a, int) else tr(a)))
    pos = from_fn((n, d), lambda i: x(i[0], i[1]))
    bw = bandwidths(d)
    r = f(pos, asarray(bw))
    i = integer("i")
    CTX.assume(z3.And(i.e >= 0, i.e < n.e))
    CTX.check("one-density-per-walker", z3.BoolVal(r.ndim == 1 and A.same(r.shape[0], n)))
    CTX.check_eq("average-over-all-walkers", r.at((i,)), density(x, n, i, d, bw))
    for a in range(d):
        CTX.check("positions-unchanged", eq(pos.at((i, a)), x(i, a)))


class Correction:
    """contract of Grid.interpolate seen by calc_betas"""

    def __init__(self, d):
        self.d = d
        self.f = z3.Function("corr", *[R] * d, R)
        self.calls = []

    def at(self, x):
        return wrap(self.f(*[trr(v) for v in x]))

    def interpolate(self, points, method="linear", fill_value=float("nan")):
        points = asarray(points)
        n = points.shape[0]
        self.calls.append((method, fill_value))
        g = points.getter()
        val = lambda i: self.at([g((i, a)) for a in range(self.d)])
        return from_fn((n, 1), lambda i: val(i[0])) if self.d == 1 else from_fn((n,), lambda i: val(i[0]))


def stub_density(s, D):
    """contract of walker_density: positive, one value per walker, for these positions and bandwidths"""
    old = s.parts.snapshot()
    n, d = s.n, s.d

    def walker_density(pos, bw):
        pos, bw = asarray(pos), asarray(bw)
        CTX.check("density.one-row-per-walker", z3.BoolVal(pos.ndim == 2 and A.same(pos.shape[0], n) and A.same(pos.shape[1], d)))
        i = CTX.fresh_idx("row")
        CTX.fact(z3.And(i >= 0, i < tr(n)))
        for a in range(d):
            CTX.check(f"density.of-current-positions{a}", eq(pos.at((SymInt(i), a)), old["pos"]((SymInt(i), a))))
            CTX.check_eq(f"density.bandwidth{a}", bw.at((a,)), s.bw[a])

        Dn = z3.Function("D", I, R)

        def val(idx):
            v = Dn(tr(idx[0]))
            CTX.fact(v > 0)
            return wrap(v)
        return from_fn((n,), val)
    s.mod.walker_density = walker_density


def kt_energy(s, old, i):
    return old["energy"]((i,)) / s.kt


@contract("C03", [BDC + "calc_betas", BDC + "__init__"], params=[(d, v) for d in (1, 2, 3) for v in (None, "orig", "add", "mult")])
def rates(d, variant):
    corr = Correction(d)

    def prepare(m):
        m.calc_additive_correction = lambda *a, **k: corr
        m.dens_kernel_convolution = lambda *a, **k: type("Conv", (), {"n_dim": d})()
        m.grid.sparsify = lambda *a, **k: LogOf(corr)
    s = BDState(d, variant, nmin=1, eq_density=object() if variant in ("add", "mult") else None, prepare=prepare)
    D = z3.Function("D", I, R)
    stub_density(s, D)
    old = s.parts.snapshot()
    n = s.n
    earlier(s.bd, lambda: other_walkers(s.parts, s.bd.calc_betas))
    corr.calls.clear()
    b = s.bd.calc_betas()
    i = integer("i")
    CTX.assume(z3.And(i.e >= 0, i.e < n.e))
    CTX.check("one-rate-per-walker", z3.BoolVal(b.ndim == 1 and A.same(b.shape[0], n)))
    x = lambda j: [old["pos"]((j, a)) for a in range(d)]
    CTX.fact(D(i.e) > 0)
    ld = lambda j: core.sym_log(wrap(D(tr(j))))
    if variant == "mult":
        base = lambda j: ld(j) + corr.at(x(j))
    else:
        base = lambda j: ld(j) + kt_energy(s, old, j)
    want = base(i) - A.agg_sum(n, base) / n
    if variant == "add":
        want = want + corr.at(x(i))
    CTX.check_eq("rate", b.at((i,)), want)
    if variant in ("add", "mult"):
        CTX.check("linear-interpolation-zero-outside", z3.BoolVal(all(m == "linear" and f == 0.0 for m, f in corr.calls)))
    now = s.parts.snapshot()
    for f, g in old.items():
        if f in ("pos", "mom", "forces"):
            for a in range(d):
                CTX.check("walkers-unchanged", eq(now[f]((i, a)), g((i, a))))
        else:
            CTX.check("walkers-unchanged", eq(now[f]((i,)), g((i,))))


class LogOf:
    """grid whose negative logarithm is the correction"""

    def __init__(self, corr):
        self.corr = corr

    def log(self):
        return NegOf(self.corr)


class NegOf:
    def __init__(self, corr):
        self.corr = corr

    def __neg__(self):
        return self.corr


@contract("C03", [G + "Grid.interpolate"], params=[1, 2, 3])
def interpolation_request(d):
    """the values handed to the interpolation belong to the points handed to it"""
    m = repo().get("bdld.grid")
    g, rg, n, f = with_data(m, d)
    k = integer("M")
    CTX.assume(k >= 1)
    xf = z3.Function("xi", I, I, R)
    xi = from_fn((k, d), lambda i: wrap(xf(tr(i[0]), tr(i[1]))))
    CTX.ghost["griddata"] = []
    earlier(g, lambda: other_values([g.data], lambda: g.interpolate(xi, "linear", 0.0)), ("_data",))
    CTX.ghost["griddata"] = []
    r = g.interpolate(xi, "linear", 0.0)
    (rec,) = CTX.ghost["griddata"]
    i = gidx(n)
    CTX.check_eq("value", flat_at(rec["values"], i, n), f(i))
    for a in range(d):
        CTX.check_eq(f"point{a}", flat_at(rec["points"], i, n, a), point(rg, n, i)[a])
        j = integer("j")
        CTX.check_eq(f"requested{a}", rec["xi"].at((j, a)), wrap(xf(j.e, z3.IntVal(a))))
    CTX.check("method-and-fill-value", z3.BoolVal(rec["method"] == "linear" and rec["fill"] == 0.0))
    CTX.check("one-value-per-point", eq(r.shape[0], k))
    CTX.check_eq("data-unchanged", g.data.at(i), f(i))


@contract("C03", [BDC + "__init__", G + "sparsify", G + "Grid.log", G + "Grid.__neg__"], params=[1, 2, 3])
def multiplicative_grid(d):
    """interpolation grid of the multiplicative variant: -log of the smoothed density"""
    box = {}

    def prepare(m):
        g, rg, n, f = with_data(m.grid, d, "e", "pi")
        box.update(eqd=g, rg=rg, n=n)

        def dens_kernel_convolution(q, bw, mode):
            CTX.check("smoothing.of-the-equilibrium-density", z3.BoolVal(q is g))
            CTX.check("smoothing.keeps-the-grid", z3.BoolVal(mode == "same"))
            for a in range(d):
                CTX.check_eq(f"smoothing.bandwidth{a}", asarray(bw).at((a,)), box["bw"][a])
            c = m.grid.from_npoints(SList(rg), SList(n))
            arr, K = data_array("K", n)
            c.data = arr
            box.update(conv=c, K=K)
            return c
        m.dens_kernel_convolution = dens_kernel_convolution
        # contract of the interpolation: values at the points of the grid it is asked for

        def interpolate(self, points, method="linear", fill_value=float("nan")):
            CTX.check("sparsify.from-the-smoothed-density", z3.BoolVal(self is box["conv"] and method == "linear"))
            pts = asarray(points)
            fn = z3.Function("interp", *[R] * d, R)
            box["fn"] = fn

            def val(i):
                t = fn(*[trr(pts.at((i, a))) for a in range(d)])
                CTX.fact(t > 0)
                return wrap(t)
            return from_fn((pts.shape[0], 1) if d == 1 else (pts.shape[0],), lambda idx: val(idx[0]))
        m.grid.Grid.interpolate = interpolate
        box["bw"] = bandwidths(d)
        box["g"] = g
    r = repo()
    m = r.get("bdld.actions.birth_death")
    prepare(m)
    s = BDState(d, "mult", eq_density=box["g"], bw=box["bw"], repo_=r)
    ag = s.bd.approx_grid
    k = [ite(box["n"][a] <= 101, box["n"][a], 101) for a in range(d)]
    geometry_checks("grid", ag, box["rg"], k)
    for i in each(ag.n_points):
        x = point(box["rg"], ag.n_points, i)
        CTX.check_eq("minus-log-of-smoothed-density", ag.data.at(i), -core.sym_log(wrap(box["fn"](*[trr(v) for v in x]))))


@contract("C03", [BDC + "__init__"], params=["add", "mult"])
def density_required(variant):
    e, _ = raises(lambda: BDState(1, variant, eq_density=None), ValueError)
    CTX.check("rejected-with-ValueError", z3.BoolVal(e is not None))
