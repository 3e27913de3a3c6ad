import math
import numpy as np
import boot
import gen
import gridsim
from lib import case, Fail, Skip
from bdld import grid
from bdld.actions import birth_death
from bdld.actions.birth_death import calc_additive_correction, dens_kernel_convolution, nd_trapz
from bdld.potential.mueller_brown import MuellerBrownPotential


def oracle_dens(pot, kt, rg, n):
    pts = gridsim.points(rg, n)
    if isinstance(pot, MuellerBrownPotential):
        u = np.array([gen.mb_energy(pot.scaling_factor, p) for p in pts])
    else:
        u = np.array([gen.poly_energy(pot.coeffs, p) for p in pts])
    w = np.exp(-u / kt)
    h = [(hi - lo) / (m - 1) for (lo, hi), m in zip(rg, n)]
    return (w / (w.sum() * math.prod(h))).reshape(n), h


@case("density", 45, 500)
def _(T, r, i):
    d = i % 3 + 1
    pot = gen.gentle(r, d)
    if i % 10 == 9:
        d, pot = 2, T.call(MuellerBrownPotential, 0.02)
    rg = gen.ranges(r, d)
    if i % 10 == 9:
        rg = [(-1.2, 1.1), (-.3, 2.1)]
    n = [int(r.randint(2, 8)) for _ in range(d)]
    kt = float(np.round(r.uniform(.2, 3), 2))
    T.given(dim=d, kt=kt, ranges=rg, n_points=n)
    r0, n0 = [tuple(x) for x in rg], list(n)
    g = T.call(pot.calculate_probability_density, kt, rg, n)
    want, h = oracle_dens(pot, kt, rg, n)
    T.close(g.data, want, "probability density", rtol=1e-7, atol=1e-12)
    T.close(np.sum(g.data) * math.prod(g.stepsizes), 1.0, "sum times volume element is not one")
    T.close(g.ranges, rg, "grid of the density")
    T.expect(list(g.n_points) == n0, "grid of the density")
    T.expect(rg == r0 and n == n0, "arguments changed")
    T.rejects(lambda: pot.calculate_probability_density(kt, rg + [(0., 1.)], n + [3]), ValueError, "ranges of wrong dimension")
    T.rejects(lambda: pot.calculate_probability_density(kt, rg, n + [3]), ValueError, "points of wrong dimension")
    pts = gridsim.points(rg, n)
    ref = T.call(pot.calculate_reference, pts)
    u = np.array([T.call(pot.energy, p) for p in pts], dtype=float)
    T.close(np.asarray(ref), u - u.min(), "reference free energy", rtol=1e-9, atol=1e-9 * (1 + np.abs(u).max()))
    T.expect(np.min(ref) == 0.0, "reference minimum is not zero")
    T.close(T.call(pot.calculate_reference, pts, False), u, "unshifted reference", rtol=1e-9, atol=1e-9 * (1 + np.abs(u).max()))


def dens(T, r, i):
    d = [1, 1, 2, 3, 1][i % 5]
    n = [[int(r.randint(12, 40))], [int(r.randint(110, 150))], [int(r.randint(7, 14)), int(r.randint(7, 14))],
         [7, 8, 6], [int(r.randint(30, 80))]][i % 5]
    pot = gen.gentle(r, d)
    rg = [(-1.5 - .2 * k, 1.7 + .1 * k) for k in range(d)]
    g = T.call(pot.calculate_probability_density, 1.1, rg, n)
    # an arbitrary positive density is as good
    if i % 2:
        g.data = np.round(r.uniform(.1, 2, size=n), 3)
        g = g / (float(np.sum(g.data)) * float(np.prod(g.stepsizes)))
    bw = gridsim.bw_for(r, g.stepsizes)
    if d == 3:
        bw = [2.5 * s / 10 for s in g.stepsizes]
    T.given(dim=d, ranges=rg, n_points=n, bw=bw, density=np.array(g.data))
    return g, d, n, rg, bw


@case("smoothing", 30, 300)
def _(T, r, i):
    g, d, n, rg, bw = dens(T, r, i)
    d0 = np.array(g.data)
    want, nk = gridsim.smoothed(d0, rg, n, bw)
    c = T.call(dens_kernel_convolution, g, np.array(bw), "same")
    T.close(c.data, want, "smoothed density", rtol=1e-8, atol=1e-12)
    T.close(c.ranges, rg, "smoothing changes the grid")
    T.expect(list(c.n_points) == n, "smoothing changes the grid", got=c.n_points)
    T.same(g.data, d0, "density changed by smoothing")
    T.rejects(lambda: grid.convolve(g, g, mode="full"), NotImplementedError, "full mode")


@case("correction", 30, 300)
def _(T, r, i):
    g, d, n, rg, bw = dens(T, r, i)
    d0 = np.array(g.data)
    conv, nk = gridsim.smoothed(d0, rg, n, bw)
    lt = np.log(conv / d0)
    want = -lt + gridsim.trapz(lt * d0, g.stepsizes)
    c = T.call(calc_additive_correction, g, np.array(bw), "same") if i % 2 else T.call(calc_additive_correction, g, np.array(bw))
    if max(n) > 101:
        T.expect(list(c.n_points) == [101], "points of the sparsified correction", got=c.n_points)
        new = gridsim.axis(*rg[0], 101)
        want = np.interp(new, gridsim.axis(*rg[0], n[0]), want)
    T.close(c.data, want, "additive correction", rtol=1e-7, atol=1e-8)
    T.close(c.ranges, rg, "grid of the correction")
    T.same(g.data, d0, "density changed by the correction")


@case("trapz", 40, 400)
def _(T, r, i):
    d = i % 3 + 1
    n = [int(r.randint(1 if i % 8 == 7 else 2, 7)) for _ in range(d)]
    a = np.round(r.uniform(-2, 2, size=n), 3)
    h = [float(np.round(r.uniform(.1, 2), 2)) for _ in range(d)]
    T.given(data=a, dx=h)
    h0, a0 = list(h), a.copy()
    T.close(T.call(nd_trapz, a, h), gridsim.trapz(a, h), "iterated trapezoidal rule", rtol=1e-9, atol=1e-9)
    T.expect(h == h0, "stepsizes changed")
    T.same(a, a0, "data changed")
    if d == 1:
        T.close(T.call(nd_trapz, a, h[0]), gridsim.trapz(a, h), "one-dimensional rule")


@case("kernel", 20, 200)
def _(T, r, i):
    d = i % 3 + 1
    f = T.need(birth_death, "calc_kernel")
    x = np.round(r.uniform(-2, 2, size=(5, d)), 3)
    bw = np.round(r.uniform(.2, 2, size=d), 2)
    T.given(dist=x, bw=bw)
    T.close(T.call(f, x, bw), [gridsim.kernel(v, bw) for v in x], "Gaussian kernel", rtol=1e-9, atol=1e-14)


@case("setup-density", 4, 30)
def _(T, r, i):
    from bdld import main
    f = T.need(main, "bd_prob_density")
    pot = gen.gentle(r, 1)
    bw = np.array([[.3], [0.01], [0.0049], [2.0]][i % 4])
    kt = 0.9
    T.given(ranges=pot.ranges, bw=bw)
    g = T.call(f, pot, bw, kt)
    n = list(g.n_points)
    want, h = oracle_dens(pot, kt, pot.ranges, n)
    T.close(g.data, want, "density for birth-death", rtol=1e-7, atol=1e-12)
    T.close(g.ranges, pot.ranges, "density covers the range of the potential")
    T.expect(n[0] % 2 == 1 and n[0] >= 501, "number of points", n=n)
    T.expect(10 * bw[0] / h[0] >= 19, "less than 20 points within 5 sigma", n=n)


@case("variants-grid", 12, 60)
def _(T, r, i):
    """what the corrections of birth-death are built from"""
    from bdld.actions.birth_death import BirthDeath, ApproxVariant
    from bdsim import ensemble
    g, d, n, rg, bw = dens(T, r, [0, 1, 2][i % 3])
    _, ld, kt = ensemble(T, r, i, 3, d)
    conv, nk = gridsim.smoothed(np.array(g.data), rg, n, bw)
    var = [ApproxVariant.add, ApproxVariant.mult][(i // 3) % 2]
    bd = T.call(BirthDeath, ld.particles, .01, 5, bw, kt, None, False, var, g)
    ag = T.need(bd, "approx_grid")
    if var == ApproxVariant.add:
        lt = np.log(conv / g.data)
        want = -lt + gridsim.trapz(lt * g.data, g.stepsizes)
    else:
        want = conv
    if max(n) > 101:
        want = np.interp(gridsim.axis(*rg[0], 101), gridsim.axis(*rg[0], n[0]), want)
    if var == ApproxVariant.mult:
        want = -np.log(want)
    a = np.asarray(ag.data)
    ok = ~np.isnan(a)
    T.close(a[ok], want[ok], f"correction grid of the {var.value} variant", rtol=1e-6, atol=1e-6)
