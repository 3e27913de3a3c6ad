"""C08 boundary conditions (bdld.potential.potential)."""
from .common import *

TRUSTED = ["Python float % is the mathematical modulo (x - y*floor(x/y))"]
ASSUMPTIONS = [REALS]
POT = "bdld/potential/potential.py:"


def setup(cond, d):
    r = repo()
    m = r.get("bdld.potential.potential")
    p = m.Potential()
    p.n_dim = d
    rg = []
    for i in range(d):
        lo, hi = real(f"lo{i}"), real(f"hi{i}")
        CTX.assume(lo < hi)
        rg.append((lo, hi))
    p.ranges = SList(rg)
    if cond == "none":
        p.boundary_condition = None
    else:
        p.boundary_condition = getattr(m.BoundaryCondition, cond)
    return p, rg


@contract("C08", [POT + f for f in ("Potential.boundary_condition", "Potential._set_boundary_condition_function",
                                    "Potential.apply_boundary_condition_reflective", "Potential.apply_boundary_condition_periodic")],
          params=[(c, d) for c in ("none", "reflective", "periodic") for d in (1, 2, 3)])
def boundary(cond, d):
    p, rg = setup(cond, d)
    x, mo = vec("x", d), vec("m", d)
    x0, m0 = items(x), items(mo)
    earlier(p, lambda: other_values([x, mo], lambda: p.apply_boundary_condition(x, mo)))
    p.apply_boundary_condition(x, mo)
    x1, m1 = items(x), items(mo)
    for i in range(d):
        (lo, hi) = rg[i]
        inside = z3.And(tb(x0[i] >= lo), tb(x0[i] <= hi))
        same = z3.And(eq(x1[i], x0[i]), eq(m1[i], m0[i]))
        CTX.check(f"dim{i}.inside-untouched", z3.Implies(inside, same))
        if cond == "none":
            CTX.check(f"dim{i}.untouched", same)
        elif cond == "reflective":
            CTX.check(f"dim{i}.below-goes-to-lower-boundary", z3.Implies(tb(x0[i] < lo), z3.And(eq(x1[i], lo), eq(m1[i], -m0[i]))))
            CTX.check(f"dim{i}.above-goes-to-upper-boundary", z3.Implies(tb(x0[i] > hi), z3.And(eq(x1[i], hi), eq(m1[i], -m0[i]))))
        else:
            CTX.check(f"dim{i}.momentum-unchanged", eq(m1[i], m0[i]))
            CTX.check(f"dim{i}.in-range", z3.And(tb(x1[i] >= lo), tb(x1[i] <= hi)))
            # congruent modulo the period: x1 - lo == (x0 - lo) mod period (or hi for lo)
            rem = core.py_divmod(x0[i] - lo, hi - lo)[1]
            CTX.check(f"dim{i}.whole-periods", z3.Implies(z3.Not(inside), z3.Or(eq(x1[i], lo + rem), z3.And(eq(rem, 0), eq(x1[i], hi)))))


@contract("C08", [POT + "Potential._set_boundary_condition_function", POT + "Potential.__init__"], params=[("reflective",), ("periodic",), ("none",)])
def default_and_switch(last):
    """the function in use always follows the boundary condition set last"""
    r = repo()
    m = r.get("bdld.potential.potential")
    p = m.Potential()
    CTX.check("default-none", z3.BoolVal(p.boundary_condition is None))
    x, mo = vec("x", 1), vec("m", 1)
    x0, m0 = items(x)[0], items(mo)[0]
    p.ranges = SList([(real("lo"), real("hi"))])
    CTX.assume(real("lo") < real("hi"))
    p.apply_boundary_condition(x, mo)
    CTX.check("default-inert", z3.And(eq(items(x)[0], x0), eq(items(mo)[0], m0)))
    for c in ("periodic", "reflective", None):
        p.boundary_condition = None if c is None else getattr(m.BoundaryCondition, c)
    p.boundary_condition = None if last == "none" else getattr(m.BoundaryCondition, last)
    p.apply_boundary_condition(x, mo)
    x1, m1 = items(x)[0], items(mo)[0]
    lo, hi = real("lo"), real("hi")
    if last == "reflective":
        CTX.check("follows", z3.Implies(tb(x0 > hi), z3.And(eq(x1, hi), eq(m1, -m0))))
    elif last == "periodic":
        CTX.check("follows", z3.And(z3.Implies(tb(x0 > hi), z3.And(tb(x1 <= hi), tb(x1 >= lo))), eq(m1, m0)))
    else:
        CTX.check("follows", z3.And(eq(x1, x0), eq(m1, m0)))


@contract("C08", [POT + "Potential._set_boundary_condition_function"])
def unknown_rejected():
    r = repo()
    m = r.get("bdld.potential.potential")
    p = m.Potential()
    e, _ = raises(lambda: setattr(p, "boundary_condition", "something else"), ValueError)
    CTX.check("unknown-condition-rejected", z3.BoolVal(e is not None))


@contract("C08", ["bdld/potential/polynomial.py:PolynomialPotential.__init__", POT + "Potential.__init__"], params=[1, 2, 3])
def ranges_of_potential(d):
    """the ranges used for a dimension are those given for it"""
    r = repo()
    m = r.get("bdld.potential.potential")
    t = z3.Const("C", npshim.CoefS)
    sh = []
    for a in range(d):
        n = integer(f"n{a}")
        CTX.assume(n >= 1)
        sh.append(n)
    rg = [(real(f"lo{a}"), real(f"hi{a}")) for a in range(d)]
    for lo, hi in rg:
        CTX.assume(lo < hi)
    p = r.get("bdld.potential.polynomial").PolynomialPotential(npshim.coeffs_array(t, tuple(sh)), SList(rg))
    CTX.check("dimension", z3.BoolVal(p.n_dim == d))
    CTX.check("one-range-per-dimension", z3.BoolVal(len(p.ranges) == d))
    for a in range(d):
        CTX.check_eq(f"dim{a}.lower", p.ranges[a][0], rg[a][0])
        CTX.check_eq(f"dim{a}.upper", p.ranges[a][1], rg[a][1])
    x, mo = vec("x", d), vec("m", d)
    x0, m0 = items(x), items(mo)
    p.boundary_condition = m.BoundaryCondition.reflective
    p.apply_boundary_condition(x, mo)
    for a in range(d):
        lo, hi = rg[a]
        CTX.check_eq(f"dim{a}.reflected-at-its-own-range", items(x)[a], core.ite(tb(x0[a] < lo), lo, core.ite(tb(x0[a] > hi), hi, x0[a])))
