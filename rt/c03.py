import ast
import math
import sys
import types
import numpy as np
import boot
import gen
import gridsim
from bdsim import *
from lib import case, Fail, Skip
from bdld import grid


def scaled(limit):
    """birth_death module with every integer constant >= 1000 in comparisons
    scaled down, so the many-walker code runs with few walkers"""
    path = birth_death.__file__
    tree = ast.parse(open(path).read())
    hit = []

    class V(ast.NodeTransformer):
        def visit_Constant(self, n):
            if type(n.value) is int and n.value >= 1000:
                hit.append(n.value)
                return ast.copy_location(ast.Constant(limit), n)
            return n

    tree = ast.fix_missing_locations(V().visit(tree))
    m = types.ModuleType("bdld.actions.birth_death_scaled")
    m.__package__ = "bdld.actions"
    m.__file__ = path
    exec(compile(tree, path, "exec"), m.__dict__)
    return m, hit


@case("density", 60, 800)
def _(T, r, i):
    n, d = [1, 2, 3, 7, 12][i % 5], i % 3 + 1
    pos = np.round(r.uniform(-2, 2, size=(n, d)), 3)
    if i % 7 == 0 and n > 1:
        pos[-1] = pos[0]
    bw = np.round(r.uniform(.1, 1.2, size=d), 2)
    T.given(pos=pos, bw=bw)
    want = density(pos, bw)
    p0 = pos.copy()
    T.close(T.call(birth_death.walker_density, pos, bw), want, "walker density", rtol=1e-8, atol=1e-14)
    T.same(pos, p0, "walker_density changed the positions")
    for name in ("_walker_density_manual", "_walker_density_pdist"):
        if hasattr(birth_death, name):
            T.close(T.call(getattr(birth_death, name), pos, bw), want, f"{name}", rtol=1e-8, atol=1e-14)


@case("many-walkers", 9, 60)
def _(T, r, i):
    d = i % 3 + 1
    m, hit = scaled(4)
    n = [4, 5, 9][(i // 3) % 3]
    pos = np.round(r.uniform(-2, 2, size=(n, d)), 3)
    bw = np.round(r.uniform(.2, 1.2, size=d), 2)
    T.given(pos=pos, bw=bw, scaled_constants=hit)
    try:
        with boot.quiet():
            got = np.asarray(m.walker_density(pos, bw))
        good = got.shape == (n,) and np.allclose(got, density(pos, bw), rtol=1e-8, atol=1e-14)
    except Exception:
        good = False
    T.n_expect += 1
    if not good:
        # confirm with the real constants: as many walkers as it takes, spot-checked
        big = max(hit) + 1 if hit else 10001
        p = np.round(r.uniform(-2, 2, size=(big, d)), 3)
        got = np.asarray(T.call(birth_death.walker_density, p, bw))
        norm = math.prod(1 / (math.sqrt(2 * math.pi) * b) for b in bw)
        for k in (0, 1, big // 2, big - 1):
            w = np.mean(norm * np.exp(-np.sum((p[k] - p) ** 2 / (2 * bw ** 2), axis=1)))
            T.close(got[k], w, f"walker density with {big} walkers", rtol=1e-7, atol=1e-12, walker=k)


@case("rates", 60, 800)
def _(T, r, i):
    n, d = [2, 3, 5, 9][i % 4], i % 3 + 1
    pot, ld, kt = ensemble(T, r, i, n, d)
    bw = [float(np.round(r.uniform(.2, .9), 2)) for _ in range(d)]
    if i % 5 == 0:
        ld.particles[0].pos[:] = 40.0  # isolated walker
        ld.particles[0].energy = 3.0
    bd = T.call(BirthDeath, ld.particles, .01, 5, bw if i % 2 else np.array(bw), kt)
    T.given(n=n, dim=d, kt=kt, bw=bw, pos=[p.pos for p in ld.particles], energy=[p.energy for p in ld.particles])
    want = rates([p.pos for p in ld.particles], [p.energy for p in ld.particles], bw, kt)
    before = [fieldsof(p) for p in ld.particles]
    T.close(T.call(bd.calc_betas), want, "birth-death rates", rtol=1e-8, atol=1e-8)
    T.expect(all(same_fields(a, fieldsof(b)) for a, b in zip(before, ld.particles)), "calculating rates changed walkers")
    # rates follow the current ensemble
    ld.particles[0].pos = ld.particles[0].pos + 0.3
    ld.particles[1].energy = 1.5
    want = rates([p.pos for p in ld.particles], [p.energy for p in ld.particles], bw, kt)
    T.close(T.call(bd.calc_betas), want, "birth-death rates after moving a walker", rtol=1e-8, atol=1e-8)


def dens_grid(T, r, d, npts):
    pot = gen.gentle(r, d)
    rg = [(-2.0 - .1 * k, 2.0 + .2 * k) for k in range(d)]
    kt = 0.8
    return pot, rg, kt, T.call(pot.calculate_probability_density, kt, rg, npts)


@case("variants", 24, 200)
def _(T, r, i):
    d = [1, 1, 2][i % 3]
    npts = [[31], [131], [13, 15]][i % 3]
    pot, rg, kt, dens = dens_grid(T, r, d, npts)
    n = 6
    bw = gridsim.bw_for(r, dens.stepsizes)
    var = [ApproxVariant.add, ApproxVariant.mult][(i // 3) % 2]
    _, ld, _ = ensemble(T, r, i, n, d)
    for p in ld.particles:
        p.pos = np.array([float(np.round(r.uniform(lo + .1, hi - .1), 3)) for lo, hi in rg])
    ld.particles[-1].pos = np.array([hi + 1.0 for lo, hi in rg])  # outside the grid: no correction
    T.given(variant=str(var), dim=d, npts=npts, kt=kt, bw=bw, pos=[p.pos for p in ld.particles],
            energy=[p.energy for p in ld.particles])
    bd = T.call(BirthDeath, ld.particles, .01, 5, bw, kt, None, False, var, dens)
    pos = np.array([p.pos for p in ld.particles])
    ene = np.array([p.energy for p in ld.particles])
    conv, _nk = gridsim.smoothed(dens.data, rg, npts, bw)
    if var == ApproxVariant.add:
        lt = np.log(conv / dens.data)
        g = -lt + gridsim.trapz(lt * dens.data, dens.stepsizes)
    else:
        g = conv
    ax = [gridsim.axis(lo, hi, m) for (lo, hi), m in zip(rg, npts)]
    n2 = [min(101, m) for m in npts]
    if n2 != npts:
        new = gridsim.axis(*rg[0], 101)
        g, ax = np.interp(new, ax[0], g), [new]
    if var == ApproxVariant.mult:
        g = -np.log(g)
    if d == 1:
        corr = gridsim.lin1d(ax[0], g, pos[:, 0], 0.0)
    else:
        from scipy.interpolate import griddata
        corr = griddata(gridsim.points(rg, n2), g.flatten(), pos, "linear", 0.0)
    ld0 = np.log(density(pos, bw))
    if var == ApproxVariant.add:
        b = ld0 + ene / kt
        want = b - b.mean() + corr
    else:
        b = ld0 + corr
        want = b - b.mean()
    T.close(T.call(bd.calc_betas), want, f"rates with the {var.value} variant", rtol=1e-6, atol=1e-6)


@case("variant-needs-density", 2, 2)
def _(T, r, i):
    _, ld, kt = ensemble(T, r, i, 3, 1)
    T.rejects(lambda: BirthDeath(ld.particles, .01, 5, [.3], kt, None, False,
                                 [ApproxVariant.add, ApproxVariant.mult][i]), ValueError, "variant without density")
