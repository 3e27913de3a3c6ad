"""C07 forces are the negative gradient of the energy."""
from .common import *
from engine import nf

POLY = "bdld/potential/polynomial.py:"
MB = "bdld/potential/mueller_brown.py:"
TRUSTED = ["numpy.polynomial: polyval/2d/3d(x.., c) = sum c[i,j,k] x^i y^j z^k and polyder = coefficients of the derivative",
           "numpy.exp is the real exponential function (d exp(u) = exp(u) du)", "numpy.genfromtxt returns the numbers of the file"]
ASSUMPTIONS = [REALS]


def grad_check(label, energy, force, xs):
    """force[d] == -d energy / d x_d, by symbolic differentiation of the normal form"""
    p = nf.poly(CTX, CTX.rewrite(trr(energy)))
    for d, x in enumerate(xs):
        mono = nf.poly(CTX, x.e)
        ((m, c),) = mono.d.items()
        aid = m[0][0]
        g = nf.diff(p, aid)
        f = nf.poly(CTX, CTX.rewrite(trr(force[d])))
        ok = nf.is_zero(g + f)
        if ok:
            CTX.check(f"{label}.dim{d}", z3.BoolVal(True))
        else:
            CTX.check(f"{label}.dim{d}", z3.Not(core_distinct(g + f, xs)))


def core_distinct(p, xs):
    """formula saying that the (non-zero) normal form is non-zero somewhere"""
    from engine.nf import render
    return render(p) != 0


def used_elsewhere(pot, pos):
    """earlier evaluations, the position array then held other values"""
    def use():
        pot.energy(pos)
        pot.force(pos)
        pot.evaluate(pos)
    earlier(pot, lambda: other_values([pos], use))


@contract("C07", [POLY + f for f in ("PolynomialPotential.__init__", "PolynomialPotential.set_polyval", "PolynomialPotential.energy",
                                     "PolynomialPotential.force")] + ["bdld/potential/potential.py:Potential.evaluate"], params=[1, 2, 3])
def polynomial(nd):
    """any coefficients of any degree, relative to the contract of numpy.polynomial"""
    r = repo()
    m = r.get("bdld.potential.polynomial")
    t = z3.Const("C", npshim.CoefS)
    sh = []
    for i in range(nd):
        n = integer(f"n{i}")
        CTX.assume(n >= 1)
        sh.append(n)
    c = npshim.coeffs_array(t, tuple(sh))
    pot = m.PolynomialPotential(c)
    xs = [real(f"x{i}") for i in range(nd)]
    pv = z3.Function(f"polyval{nd}", npshim.CoefS, *[R] * nd, R)
    pd = z3.Function("polyder", npshim.CoefS, I, npshim.CoefS)
    for how in ("list", "array"):
        pos = SList(xs) if how == "list" else asarray(xs)
        if how == "array":
            used_elsewhere(pot, pos)
        e = pot.energy(pos)
        f = items(pot.force(pos))
        CTX.check(f"{how}.energy", eq(e, wrap(pv(t, *[x.e for x in xs]))))
        CTX.check(f"{how}.n-forces", z3.BoolVal(len(f) == nd))
        for d in range(nd):
            CTX.check(f"{how}.force{d}", eq(f[d], -wrap(pv(pd(t, z3.IntVal(d)), *[x.e for x in xs]))))
        e2, f2 = pot.evaluate(pos)
        CTX.check(f"{how}.evaluate-energy", eq(e2, e))
        for d in range(nd):
            CTX.check(f"{how}.evaluate-force{d}", eq(items(f2)[d], f[d]))
    CTX.check("n_dim", z3.BoolVal(pot.n_dim == nd))


SHAPES = [(1,), (2,), (5,), (1, 1), (3, 2), (2, 4), (1, 3), (3, 3), (2, 1, 2), (2, 2, 3), (1, 1, 1), (3, 2, 2)]


@contract("C07", [POLY + "PolynomialPotential.energy", POLY + "PolynomialPotential.force"], params=[(s,) for s in SHAPES])
def polynomial_explicit(shape):
    """explicit coefficient arrays: symbolic differentiation of the returned energy"""
    r = repo()
    m = r.get("bdld.potential.polynomial")
    nd = len(shape)
    co = {i: real("c" + "_".join(map(str, i))) for i in A.all_idx(shape)}
    c = from_fn(shape, lambda i: co[tuple(i)])
    pot = m.PolynomialPotential(c)
    xs = [real(f"x{i}") for i in range(nd)]
    pos = asarray(xs)
    used_elsewhere(pot, pos)
    e = pot.energy(pos)
    f = items(pot.force(pos))
    want = 0.0
    for i, v in co.items():
        for x, q in zip(xs, i):
            for _ in range(q):
                v = v * x
        want = want + v
    CTX.check("energy-formula", eq(e, want))
    grad_check("gradient", e, f, xs)
    other = m.PolynomialPotential(asarray([real("o0"), real("o1")]))
    other.energy(asarray([xs[0]]))
    CTX.check("instances-independent", eq(pot.energy(asarray(xs)), want))


@contract("C07", [POLY + "PolynomialPotential.__init__", POLY + "PolynomialPotential.energy", POLY + "PolynomialPotential.force"],
          params=[((2,),), ((3,),), ((2, 2),), ((2, 1, 2),)])
def polynomials_independent(shape):
    """potentials made earlier or later, with coefficients of the same shape, change nothing"""
    m = repo().get("bdld.potential.polynomial")
    nd = len(shape)
    xs = [real(f"x{i}") for i in range(nd)]
    pots = []
    for q in "abc":
        co = {i: real(q + "_".join(map(str, i))) for i in A.all_idx(shape)}
        pots.append((m.PolynomialPotential(from_fn(shape, (lambda co: lambda i: co[tuple(i)])(co))), co))
        pots[-1][0].force(asarray(xs))
        pots[-1][0].energy(asarray(xs))
    for q, (pot, co) in zip("abc", pots):
        want = 0.0
        for i, v in co.items():
            for x, k in zip(xs, i):
                for _ in range(k):
                    v = v * x
            want = want + v
        e = pot.energy(asarray(xs))
        CTX.check(f"{q}.energy", eq(e, want))
        grad_check(f"{q}.gradient", e, items(pot.force(asarray(xs))), xs)


@contract("C07", [MB + f for f in ("MuellerBrownPotential.__init__", "MuellerBrownPotential.energy", "MuellerBrownPotential.force",
                                   "MuellerBrownPotential.evaluate")], params=["scaled", "default"])
def mueller_brown(mode):
    r = repo()
    m = r.get("bdld.potential.mueller_brown")
    cls = m.MuellerBrownPotential
    s, s2 = real("s"), real("s2")
    xs = [real("x"), real("y")]
    pos = asarray(xs)
    pot = cls(s) if mode == "scaled" else cls()
    used_elsewhere(pot, pos)
    e, f = pot.energy(pos), items(pot.force(pos))
    e2, f2 = pot.evaluate(pos)
    f2 = items(f2)
    CTX.check("evaluate-energy", eq(e, e2))
    for d in range(2):
        CTX.check(f"evaluate-force{d}", eq(f[d], f2[d]))
    grad_check("gradient", e, f, xs)
    CTX.check("n_dim", z3.BoolVal(pot.n_dim == 2))
    # scaling
    unit, zero = cls(1.0), cls(0.0)
    shift = zero.energy(pos)
    CTX.check("shift-is-constant", eq(zero.energy(asarray([real("u"), real("v")])), shift))
    fac = s if mode == "scaled" else 1.0
    CTX.check("scales-linearly", eq(e - shift, fac * (unit.energy(pos) - shift)))
    # independence of instances
    o = cls(s2)
    o.evaluate(pos)
    o.force(pos)
    CTX.check("instances-independent", eq(pot.energy(pos), e))
    CTX.check("later-instances", eq(cls(fac).energy(pos), e))
    for d in range(2):
        CTX.check(f"force-independent{d}", eq(items(pot.force(pos))[d], f[d]))
    # the caller's position is not changed
    CTX.check("position-unchanged", z3.And(eq(pos.at((0,)), xs[0]), eq(pos.at((1,)), xs[1])))


@contract("C07", [POLY + "coefficients_from_file"], params=[(nd, more) for nd in (1, 2, 3) for more in (0, 2)])
def coefficients_from_file(nd, more):
    """any number of rows; `more` columns after the coefficient, which are ignored"""
    r = repo()
    m = r.get("bdld.potential.polynomial")
    M, cols = integer("M"), nd + 1 + more
    other = z3.Function("other_column", I, I, R)
    CTX.assume(M >= 1)
    order = [z3.Function(f"order{i}", I, I) for i in range(nd)]
    value = z3.Function("value", I, R)
    j = z3.Const("bv!j", I)
    for o in order:
        CTX.assume(z3.ForAll([j], o(j) >= 0))

    def cell(idx):
        q, c = idx
        if not isinstance(c, int):
            c = CTX.unique_value(tr(c))
        if c is None:
            raise Unsupported("column")
        if c > nd:
            return wrap(other(tr(q), c))
        return wrap(z3.ToReal(order[c](tr(q)))) if c < nd else wrap(value(tr(q)))
    data = from_fn((M, cols), cell)
    CTX.ghost["genfromtxt"] = lambda name: data
    out = m.coefficients_from_file("file", nd)
    CTX.check("rank", z3.BoolVal(out.ndim == nd))
    # every row's coefficient is where it belongs (orders of the rows are distinct)
    q = z3.Const("q", I)
    CTX.assume(z3.And(q >= 0, q < M.e))
    for i in range(nd):
        CTX.check(f"fits{i}", tb(wrap(order[i](q)) < out.shape[i]))
    CTX.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < M.e, j != q), z3.Or(*[o(j) != o(q) for o in order]))))
    CTX.check("row-value", eq(out.at(tuple(wrap(o(q)) for o in order)), wrap(value(q))))
    # entries without a row are zero
    es = [z3.Const(f"e{i}", I) for i in range(nd)]
    CTX.assume(z3.And(*[z3.And(e >= 0, e < tr(n)) for e, n in zip(es, out.shape)]))
    CTX.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < M.e), z3.Or(*[o(j) != e for o, e in zip(order, es)]))))
    CTX.check("others-zero", eq(out.at(tuple(wrap(e) for e in es)), 0.0))
