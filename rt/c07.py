import math
import numpy as np
import boot
import gen
from lib import case, Fail, Skip
from bdld.potential import polynomial, mueller_brown
from bdld.potential.polynomial import PolynomialPotential
from bdld.potential.mueller_brown import MuellerBrownPotential


def chk(T, pot, p, e, f, what):
    tol = dict(rtol=1e-8, atol=1e-8 * (1 + abs(e) + float(np.max(np.abs(f)))))
    keep = np.array(p, copy=True)
    T.close(T.call(pot.energy, p), e, f"{what}: energy", pos=p, **tol)
    T.close(T.call(pot.force, p), f, f"{what}: force is not the negative gradient", pos=p, **tol)
    ev = T.call(pot.evaluate, p)
    T.close(ev[0], e, f"{what}: energy from evaluate()", pos=p, **tol)
    T.close(ev[1], f, f"{what}: force from evaluate()", pos=p, **tol)
    T.same(np.array(p), keep, f"{what}: evaluating changed the position")


@case("polynomial", 60, 1500)
def _(T, r, i):
    d = i % 3 + 1
    c = gen.coeffs(r, d, deg=4 if d < 3 else 3)
    if i % 7 == 3:
        c = np.round(c * 10).astype(int)
    if i % 5 == 0:
        c = c * 0
        c[tuple(int(r.randint(0, n)) for n in c.shape)] = 1.5 if c.dtype.kind == "f" else 2
    T.given(coeffs=c)
    pot = T.call(PolynomialPotential, c.tolist() if i % 2 else c, gen.ranges(r, d))
    for k in range(6):
        p = r.uniform(-3, 3, size=d)
        if k == 0:
            p = np.zeros(d)
        if k == 1:
            p = np.round(p)
        chk(T, pot, p if k % 2 else list(map(float, p)), gen.poly_energy(c, p), gen.poly_force(c, p), "polynomial")
    T.expect(pot.n_dim == d, "dimension of polynomial", n_dim=pot.n_dim)


@case("mueller-brown", 40, 1000)
def _(T, r, i):
    s = [None, 1.0, 0.2, 3.0, -1.5, 0.0][i] if i < 6 else float(np.round(r.uniform(.01, 3), 3))
    T.given(scaling=s)
    pot = T.call(MuellerBrownPotential, s)
    other = T.call(MuellerBrownPotential, 7.5)  # instances do not influence each other
    s = 1.0 if s is None else s
    for _ in range(5):
        p = np.array([r.uniform(-1.5, 1.5), r.uniform(-.5, 2.5)])
        chk(T, pot, p, gen.mb_energy(s, p), gen.mb_force(s, p), "mueller-brown")
        chk(T, other, p, gen.mb_energy(7.5, p), gen.mb_force(7.5, p), "second mueller-brown")


@case("instances", 6, 60)
def _(T, r, i):
    c1, c2 = gen.coeffs(r, i % 3 + 1), gen.coeffs(r, (i + 1) % 3 + 1)
    p1 = T.call(PolynomialPotential, c1)
    x = r.uniform(-2, 2, size=c1.ndim)
    e, f = gen.poly_energy(c1, x), gen.poly_force(c1, x)
    p2 = T.call(PolynomialPotential, c2)
    T.call(p2.force, r.uniform(-1, 1, size=c2.ndim))
    p1b = T.call(PolynomialPotential, c1 * 2)
    T.given(c1=c1, c2=c2)
    chk(T, p1, x, e, f, "first of several polynomials")
    chk(T, p1b, x, 2 * e, 2 * f, "third of several polynomials")
    if p1.ranges is not None and p1.ranges is p2.ranges:
        raise Fail("two potentials share their range list")


@case("file", 24, 400)
def _(T, r, i):
    d = i % 3 + 1
    n = 1 if i in (3, 4, 5) else int(r.randint(1, 7))
    seen = {}
    for _ in range(n):
        seen[tuple(int(r.randint(0, 5)) for _ in range(d))] = float(np.round(r.uniform(-2, 2), 4))
    items = list(seen.items())
    r.shuffle(items)
    with open("coeffs.dat", "w") as fh:
        fh.write("#! FIELDS idx value\n")
        for k, v in items:
            extra = " 7 9" if i % 4 == 1 else ""
            fh.write(" ".join(map(str, k)) + f" {v}{extra}\n")
    want = np.zeros([max(k[a] for k in seen) + 1 for a in range(d)])
    for k, v in seen.items():
        want[k] = v
    T.given(rows=[list(k) + [v] for k, v in items], n_dim=d)
    got = T.call(polynomial.coefficients_from_file, "coeffs.dat", d)
    got = np.asarray(got)
    full = want
    if got.ndim == want.ndim and all(a >= b for a, b in zip(got.shape, want.shape)):
        full = np.zeros(got.shape)  # further zero coefficients change nothing
        full[tuple(slice(0, k) for k in want.shape)] = want
    T.close(got, full, "coefficients read from file")
    pot = T.call(PolynomialPotential, got)
    x = r.uniform(-1.5, 1.5, size=d)
    chk(T, pot, x, gen.poly_energy(want, x), gen.poly_force(want, x), "polynomial from file")
