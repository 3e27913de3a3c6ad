"""C13 equilibrium density, smoothing, additive correction."""
from .bdfix import *
from .gridfix import *

POT = "bdld/potential/potential.py:Potential."
TRUSTED = ["scipy.signal.convolve: discrete convolution of its two arguments in the given mode",
           "numpy.trapz: trapezoidal rule along the last axis; numpy exp/log/sum/prod/min (contracts of engine/npshim.py)",
           "scipy griddata behind Grid.interpolate (C03 interpolation_request)"]
ASSUMPTIONS = [REALS]


def potential(d):
    r = repo()
    m = r.get("bdld.potential.potential")
    p = m.Potential()
    p.n_dim = d
    E = z3.Function("E", *[R] * d, R)
    p.__dict__["energy"] = lambda pos: wrap(E(*[trr(pos[a]) for a in range(d)]))
    return p, lambda x: wrap(E(*[trr(v) for v in x]))


def nsum(n, f):
    def rec(k, idx):
        if k == len(n):
            return f(idx)
        return A.agg_sum(n[k], lambda i: rec(k + 1, idx + (i,)))
    return rec(0, ())


@contract("C13", [POT + "calculate_probability_density", G + "from_npoints", G + "Grid.set_from_func", G + "Grid.exp", G + "Grid.__truediv__"], params=[1, 2, 3])
def probability_density(d):
    p, E = potential(d)
    rg, n = geometry(d)
    kt = real("kt")
    CTX.assume(kt > 0)
    R_, N_ = SList(rg), SList(n)

    def use():
        rg2, n2 = geometry(d)
        k2 = real("kt")
        CTX.assume(k2 > 0)
        p.calculate_probability_density(k2, SList(rg2), SList(n2))
        p.calculate_probability_density(k2, SList(rg), SList(n))
    earlier(p, use, ("energy",))
    g = p.calculate_probability_density(kt, R_, N_)
    geometry_checks("requested-grid", g, rg, n)
    i = gidx(n)
    w = lambda idx: core.sym_exp(-E(point(rg, n, idx)) / kt)
    vol = 1.0
    for a in range(d):
        vol = vol * ((rg[a][1] - rg[a][0]) / (n[a] - 1))
    tot = nsum(n, w)
    CTX.fact_positive(trr(tot))
    CTX.check_eq("boltzmann-weight-normalised", g.data.at(i), w(i) / (tot * vol))
    CTX.check_eq("sum-times-volume-is-one", nsum(n, lambda idx: g.data.at(idx)) * vol, 1)
    for a in range(d):
        CTX.check("arguments-unchanged", z3.And(eq(R_[a][0], rg[a][0]), eq(R_[a][1], rg[a][1]), eq(N_[a], n[a])))


@contract("C13", [POT + "calculate_probability_density"], params=[(d, a, b) for d in (1, 2, 3) for a in (0, 1, 2, 3, 4) for b in (0, 1, 2, 3, 4)
                                                               if (a != d or b != d)])
def wrong_dimensions(d, a, b):
    p, E = potential(d)
    rg, _ = geometry(a)
    _, n = geometry(b)
    e, _ = raises(lambda: p.calculate_probability_density(real("kt"), SList(rg), SList(n)), ValueError)
    CTX.check("rejected-with-ValueError", z3.BoolVal(e is not None))


@contract("C13", [POT + "calculate_reference"], params=[(d, z) for d in (1, 2, 3) for z in ("default", True, False)])
def reference(d, mintozero):
    p, E = potential(d)
    k = integer("M")
    CTX.assume(k >= 1)
    xf = z3.Function("x", I, I, R)
    x = lambda i: [wrap(xf(tr(i), z3.IntVal(a))) for a in range(d)]
    pos = from_fn((k, d), lambda i: wrap(xf(tr(i[0]), tr(i[1]))))
    f = p.calculate_reference(pos) if mintozero == "default" else p.calculate_reference(pos, mintozero)
    i, j = integer("i"), integer("j")
    CTX.assume(z3.And(i.e >= 0, i.e < k.e, j.e >= 0, j.e < k.e))
    CTX.check("one-value-per-position", z3.BoolVal(f.ndim == 1 and A.same(f.shape[0], k)))
    if mintozero is False:
        CTX.check_eq("energy", f.at((i,)), E(x(i)))
        return
    CTX.check_eq("potential-energy-up-to-a-constant", f.at((i,)) - f.at((j,)), E(x(i)) - E(x(j)))
    mn = A.np_min(from_fn((k,), lambda idx: E(x(idx[0]))))
    CTX.check_eq("minimum-is-zero", f.at((i,)), E(x(i)) - mn)


@contract("C13", [G + "convolve"], params=[1, 2, 3])
def convolution_same(d):
    m = repo().get("bdld.grid")
    g1, rg, n, f = with_data(m, d)
    rg2, n2 = [], []
    for a in range(d):
        k, lo = integer(f"k{a}"), real(f"klo{a}")
        CTX.assume(k >= 2)
        n2.append(k)
        rg2.append((lo, lo + g1.stepsizes[a] * (k - 1)))
    g2 = m.from_npoints(SList(rg2), SList(n2))
    g2.stepsizes = SList([g1.stepsizes[a] for a in range(d)])
    arr, f2 = data_array("ker", n2)
    g2.data = arr
    CTX.ghost["convolve"] = []
    c = m.convolve(g1, g2, mode="same", method="direct")
    recs = CTX.ghost["convolve"]
    CTX.check("one-convolution", z3.BoolVal(len(recs) == 1))
    rec = recs[0]
    i, j = gidx(n), gidx(n2, "j")
    CTX.check_eq("first-operand", rec["a"].at(i), f(i))
    CTX.check_eq("second-operand", rec["b"].at(j), f2(j))
    CTX.check("mode", z3.BoolVal(rec["mode"] == "same" and rec["method"] == "direct"))
    geometry_checks("grid-of-first-operand", c, rg, n)
    vol = 1.0
    for a in range(d):
        vol = vol * g1.stepsizes[a]
    CTX.check_eq("times-volume-element", c.data.at(i), rec["fn"](i) * vol)
    CTX.check_eq("operands-unchanged", g1.data.at(i), f(i))
    CTX.check_eq("operands-unchanged", g2.data.at(j), f2(j))
    h = m.from_npoints(SList(rg2), SList(n2))
    h.stepsizes = SList([g1.stepsizes[a] if a else real("otherstep") for a in range(d)])
    h.data = arr.copy()
    CTX.assume(z3.Not(tb(real("otherstep") == g1.stepsizes[0])))
    e, _ = raises(lambda: m.convolve(g1, h, mode="same"), ValueError)
    CTX.check("different-stepsizes-rejected", z3.BoolVal(e is not None))


@contract("C13", [BD + "dens_kernel_convolution", BD + "calc_kernel", G + "from_stepsizes", G + "convolve"], params=[1, 2, 3])
def smoothing(d):
    m = repo().get("bdld.actions.birth_death")
    g, rg, n, f = with_data(m.grid, d)
    bw = bandwidths(d)
    CTX.ghost["convolve"] = []
    c = m.dens_kernel_convolution(g, asarray(bw), "same")
    recs = CTX.ghost["convolve"]
    CTX.check("one-convolution", z3.BoolVal(len(recs) == 1))
    rec = recs[0]
    i = gidx(n)
    CTX.check_eq("density", rec["a"].at(i), f(i))
    ks = rec["b"].shape
    CTX.check("kernel.dimension", z3.BoolVal(len(ks) == d))
    x = []
    for a in range(d):
        h = (rg[a][1] - rg[a][0]) / (n[a] - 1)
        CTX.check(f"kernel.size{a}", eq(ks[a], core.sym_ceil(10 * bw[a] / h) + 1))
        k = integer(f"k{a}")
        CTX.assume(z3.And(k.e >= 0, k.e < tr(ks[a])))
        x.append((k, -5 * bw[a] + k * h))
    CTX.check_eq("kernel.gaussian-at-its-points", rec["b"].at(tuple(k for k, _ in x)), kernel([v for _, v in x], bw))
    CTX.check("mode", z3.BoolVal(rec["mode"] == "same"))
    geometry_checks("grid-of-the-density", c, rg, n)
    vol = 1.0
    for a in range(d):
        vol = vol * ((rg[a][1] - rg[a][0]) / (n[a] - 1))
    CTX.check_eq("times-volume-element", c.data.at(i), rec["fn"](i) * vol)
    CTX.check_eq("density-unchanged", g.data.at(i), f(i))


def trapz_spec(n, h, f):
    """iterated trapezoidal rule of f over an n-dimensional grid"""
    def rec(k, idx):
        if k == len(n):
            return f(idx)
        return A.agg_sum(n[k] - 1, lambda i: (rec(k + 1, idx + (i,)) + rec(k + 1, idx + (i + 1,))) * h[k] / 2)
    return rec(0, ())


@contract("C13", [BD + "nd_trapz"], params=[1, 2, 3, "single"])
def trapezoidal_rule(d):
    m = repo().get("bdld.actions.birth_death")
    single, d = d == "single", 1 if d == "single" else d
    n = []
    for a in range(d):
        k = integer(f"n{a}")
        CTX.assume(k >= 2)
        n.append(k)
    h = [real(f"h{a}") for a in range(d)]
    arr, f = data_array("y", n)
    H = SList(h)
    v = m.nd_trapz(arr, h[0] if single else H)
    v = v.at(()) if isinstance(v, SymArray) else v
    CTX.check_eq("iterated-trapezoidal-rule", v, trapz_spec(n, h, f))
    i = gidx(n)
    CTX.check_eq("data-unchanged", arr.at(i), f(i))
    CTX.check("stepsizes-unchanged", z3.BoolVal(len(H) == d))


@contract("C13", [BD + "calc_additive_correction", G + "Grid.log", G + "Grid.__truediv__", G + "sparsify"], params=[(d, how) for d in (1, 2, 3) for how in ("default", "same")])
def additive_correction(d, how):
    m = repo().get("bdld.actions.birth_death")
    g, rg, n, f = with_data(m.grid, d)
    bw = bandwidths(d)
    box = {}

    def dens_kernel_convolution(q, b, mode):
        CTX.check("smoothing.of-the-density", z3.BoolVal(q is g))
        CTX.check("smoothing.keeps-the-grid", z3.BoolVal(mode == "same"))
        c = m.grid.from_npoints(SList(rg), SList(n))
        arr, K = data_array("K", n)
        c.data = arr
        box.update(K=K)
        return c
    m.dens_kernel_convolution = dens_kernel_convolution
    box["interp"] = []

    def interpolate(self, points, method="linear", fill_value=float("nan")):
        pts = asarray(points)
        fn = z3.Function("interp", *[R] * d, R)
        box["interp"].append((self, method, fn))
        return from_fn((pts.shape[0], 1) if d == 1 else (pts.shape[0],), lambda idx: wrap(fn(*[trr(pts.at((idx[0], a))) for a in range(d)])))
    m.grid.Grid.interpolate = interpolate
    # nd_trapz is replaced by its contract (trapezoidal_rule)
    T = z3.Const("integral", R)

    def nd_trapz(data, dx):
        i = gidx(n, "t")
        CTX.check_eq("integrand", asarray(data).at(i), core.sym_log(box["K"](i) / f(i)) * f(i))
        for a in range(d):
            CTX.check_eq(f"integral.stepsize{a}", dx[a], (rg[a][1] - rg[a][0]) / (n[a] - 1))
        CTX.check("integral.dimensions", z3.BoolVal(len(dx) == d))
        box["integral"] = True
        return wrap(T)
    m.nd_trapz = nd_trapz
    i = gidx(n)
    c = m.calc_additive_correction(g, asarray(bw), "same") if how == "same" else m.calc_additive_correction(g, asarray(bw))
    CTX.check("integral-term-evaluated", z3.BoolVal("integral" in box))
    K = box["K"]
    want = lambda idx: -core.sym_log(K(idx) / f(idx)) + wrap(T)
    if box["interp"]:
        src, method, fn = box["interp"][0]
        k = [ite(n[a] <= 101, n[a], 101) for a in range(d)]
        geometry_checks("sparse-grid", c, rg, k)
        CTX.check_eq("correction-before-sparsifying", src.data.at(i), want(i))
        geometry_checks("dense-grid", src, rg, n)
        for j in each(c.n_points, "j"):
            CTX.check_eq("interpolated-correction", c.data.at(j), wrap(fn(*[trr(v) for v in point(rg, c.n_points, j)])))
        CTX.check("linear", z3.BoolVal(method == "linear" and len(box["interp"]) == 1))
    else:
        geometry_checks("grid", c, rg, n)
        CTX.check_eq("correction", c.data.at(i), want(i))
        CTX.check("only-small-grids-unsparsified", z3.And(*[tr(q) <= 101 for q in n]))
    CTX.check_eq("density-unchanged", g.data.at(i), f(i))


@contract("C13", ["bdld/main.py:bd_prob_density"], params=[1, 2, 3])
def density_for_birth_death(d):
    """the density of the potential on its own range, fine enough for the kernel"""
    m = repo().get("bdld.main")
    rg, _ = geometry(d)
    kt = real("kt")
    CTX.assume(kt > 0)
    bw = from_fn((d,), lambda i: wrap(z3.Function("bw", I, R)(tr(i[0]))))
    for a in range(d):
        CTX.assume(bw.at((a,)) > 0)
    got, out = [], object()

    class Pot:
        n_dim, ranges = d, SList(rg)

        def calculate_probability_density(self, kt, ranges, grid_points):
            got.append((kt, ranges, grid_points))
            return out
    r = m.bd_prob_density(Pot(), bw, kt)
    CTX.check("density-of-the-potential", z3.BoolVal(r is out and len(got) == 1))
    if len(got) != 1:
        return
    k, ranges, n = got[0]
    CTX.check("thermal-energy", eq(k, kt))
    CTX.check("dimensions", z3.BoolVal(len(n) == d and len(ranges) == d))
    for a in range(d):
        CTX.check(f"range{a}", z3.And(eq(ranges[a][0], rg[a][0]), eq(ranges[a][1], rg[a][1])))
        CTX.check(f"at-least-two-points-per-bandwidth{a}", tb(n[a] * bw.at((a,)) >= 2 * (rg[a][1] - rg[a][0])))
        CTX.check(f"odd{a}", eq(n[a] % 2, 1))
