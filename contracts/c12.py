"""C12 grids."""
import operator

from .gridfix import *

TRUSTED = ["numpy.linspace/meshgrid/stack/reshape/prod, copy.deepcopy and elementwise arithmetic (contracts of engine/npshim.py)"]
ASSUMPTIONS = [REALS]
GC = G + "Grid."


@contract("C12", [G + "from_npoints", G + "stepsizes_from_npoints", GC + "axes", GC + "points", GC + "set_from_func", GC + "data", GC + "__getitem__",
                  GC + "__setitem__", GC + "__init__"], params=[1, 2, 3, ((4,),), ((2, 3),), ((3, 2),), ((2, 3, 4),)])
def points_and_values(d):
    """any number of points; the concrete sizes only make counterexamples easier to find"""
    m = repo().get("bdld.grid")
    if isinstance(d, tuple):
        n, d = list(d), len(d)
        rg, _ = geometry(d)
        g = m.from_npoints(SList(rg), SList(n))
    else:
        g, rg, n = mkgrid(m, d)
    geometry_checks("grid", g, rg, n)
    i = gidx(n)
    x = point(rg, n, i)

    def use():
        e = z3.Function("func", *[R] * d, R)
        g.set_from_func(lambda q: wrap(e(*[trr(q[a]) for a in range(d)])))
        g.points()
    earlier(g, use, ("_data",))
    ax = g.axes()
    CTX.check("number-of-axes", z3.BoolVal(len(ax) == d))
    for a in range(d):
        CTX.check(f"axis{a}.size", eq(ax[a].shape[0], n[a]))
        CTX.check_eq(f"axis{a}", ax[a].at((i[a],)), x[a])
    p = g.points()
    CTX.check("points.shape", z3.BoolVal(p.ndim == 2 and A.same(p.shape[1], d)))
    size = 1
    for k in n:
        size = size * k
    CTX.check("points.size", eq(A.dim_size(p.shape[0]), size))
    if A.concrete(n):
        idx = list(A.all_idx(n))
    else:
        idx = [i]
    for q, j in enumerate(idx):
        for a in range(d):
            CTX.check_eq(f"points.row-major{a}", p.at((q, a)) if len(idx) > 1 else flat_at(p, j, n, a), point(rg, n, j)[a])
    f = z3.Function("func", *[R] * d, R)
    g.set_from_func(lambda q: wrap(f(*[trr(q[a]) for a in range(d)])))
    CTX.check_eq("value-at-its-point", g.data.at(i), wrap(f(*[trr(v) for v in x])))
    CTX.check_eq("element-access", g[i if d > 1 else i[0]], wrap(f(*[trr(v) for v in x])))
    j = gidx(n, "j")
    before = g.data.at(j)
    g[i if d > 1 else i[0]] = real("w")
    CTX.check_eq("element-assignment", g.data.at(j), ite(z3.And(*[A.ieq(a, b) for a, b in zip(i, j)]), real("w"), before))


@contract("C12", [G + "from_npoints"], params=[1, 2, 3])
def single_number(d):
    m = repo().get("bdld.grid")
    rg, _ = geometry(d)
    n = integer("n")
    CTX.assume(n >= 2)
    g = m.from_npoints(SList(rg), n)
    geometry_checks("one-number-for-all", g, rg, [n] * d)
    g2 = m.from_npoints(SList(rg), n)
    CTX.check("own-lists", z3.BoolVal(g.n_points is not g2.n_points and g.ranges is not g2.ranges))


@contract("C12", [G + "from_npoints"], params=[(d, k) for d in (1, 2, 3) for k in (0, 1, 2, 3, 4) if d != k])
def dimension_mismatch(d, k):
    m = repo().get("bdld.grid")
    rg, _ = geometry(d)
    n = SList([integer(f"m{i}") for i in range(k)])
    for x in n:
        CTX.assume(x >= 2)
    e, _ = raises(lambda: m.from_npoints(SList(rg), n), ValueError)
    CTX.check("rejected-with-ValueError", z3.BoolVal(e is not None))


@contract("C12", [G + "from_npoints", G + "from_stepsizes"], params=[1, 2, 3])
def arguments_not_shared(d):
    m = repo().get("bdld.grid")
    rg, n = geometry(d)
    R_, N_ = SList(rg), SList(n)
    g = m.from_npoints(R_, N_)
    R_[0] = (real("other"), real("other2"))
    N_[0] = integer("othern")
    geometry_checks("after-change-of-arguments", g, rg, n)
    h = [real(f"h{a}") for a in range(d)]
    for q in h:
        CTX.assume(q > 0)
    H_, R_ = SList(h), SList(rg)
    g = m.from_stepsizes(R_, H_)
    H_[0] = real("otherh")
    R_[0] = (real("other"), real("other2"))
    CTX.check_eq("stepsizes-own", g.stepsizes[0], h[0])
    CTX.check_eq("ranges-own", g.ranges[0][0], rg[0][0])


@contract("C12", [G + "from_stepsizes"], params=[(d, s, o) for d in (1, 2, 3) for s in (True, False, None) for o in (True, False)])
def stepsizes(d, shrink, one):
    m = repo().get("bdld.grid")
    rg, _ = geometry(d)
    h = [real("h") if one else real(f"h{a}") for a in range(d)]
    for q in h:
        CTX.assume(q > 0)
    arg = h[0] if one else SList(h)
    R_ = SList(rg)
    g = m.from_stepsizes(R_, arg) if shrink is None else m.from_stepsizes(R_, arg, shrink)
    CTX.check("n_dim", z3.BoolVal(g.n_dim == d and len(g.n_points) == d and len(g.ranges) == d and len(g.stepsizes) == d))
    for a in range(d):
        k = g.n_points[a]
        CTX.check_eq(f"requested-stepsize{a}", g.stepsizes[a], h[a])
        CTX.check_eq(f"lower{a}", g.ranges[a][0], rg[a][0])
        CTX.check_eq(f"max-min=stepsize*(n-1).{a}", g.ranges[a][1] - g.ranges[a][0], h[a] * (k - 1))
        q = (rg[a][1] - rg[a][0]) / h[a]
        t = core.sym_floor(q) if shrink else core.sym_ceil(q)
        CTX.check(f"n_points{a}", eq(k, t + 1))
        if shrink is None:
            CTX.check_eq(f"arguments-unchanged{a}", R_[a][1], rg[a][1])


OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv, "floordiv": operator.floordiv,
       "mod": operator.mod, "pow": operator.pow, "radd": lambda a, b: b + a, "rmul": lambda a, b: b * a}


def own(label, res, *ops):
    CTX.check(f"{label}.new-object", z3.BoolVal(all(res is not o for o in ops)))
    CTX.check(f"{label}.own-data", z3.BoolVal(all(A.asarray(o.data) is not None and res.data.buf is not o.data.buf for o in ops)))
    CTX.check(f"{label}.own-geometry", z3.BoolVal(all(res.n_points is not o.n_points and res.ranges is not o.ranges and
                                                     res.stepsizes is not o.stepsizes for o in ops)))


@contract("C12", [GC + "_perform_arithmetic_operation", GC + "copy_empty"] + [GC + f"__{o}__" for o in OPS],
          params=[(d, o, k) for d in (1, 2, 3) for o in OPS for k in ("grid", "float", "int", "array") if not (o[0] == "r" and k in ("grid", "array"))])
def arithmetic(d, op, kind):
    m = repo().get("bdld.grid")
    g, rg, n, f = with_data(m, d)
    i = gidx(n)
    if kind == "grid":
        arr, f2 = data_array("w", n)
        o = m.from_npoints(SList(rg), SList(n))
        o.data = arr
    elif kind == "array":
        o, f2 = data_array("w", n)
    else:
        v = real("c") if kind == "float" else integer("c")
        o, f2 = v, lambda idx: v
    if op in ("truediv", "floordiv", "mod"):
        CTX.assume(tb(f2(i) != 0))
    if op == "pow":
        CTX.assume(tb(f(i) > 0))
    res = OPS[op](g, o)
    CTX.check("grid", z3.BoolVal(isinstance(res, m.Grid)))
    geometry_checks("result", res, rg, n)
    want = OPS[op](f(i), f2(i)) if op not in ("truediv", "floordiv", "mod", "pow") else \
        {"truediv": A.np_div, "floordiv": A.np_floordiv, "mod": A.np_mod, "pow": core.sym_pow}[op](f(i), f2(i))
    CTX.check_eq("point-by-point", res.data.at(i), want)
    CTX.check_eq("left-operand-unchanged", g.data.at(i), f(i))
    geometry_checks("left-operand", g, rg, n)
    own("result", res, g)
    if kind == "grid":
        CTX.check_eq("right-operand-unchanged", o.data.at(i), f2(i))
        geometry_checks("right-operand", o, rg, n)
        own("result-right", res, o)
    if kind == "array":
        CTX.check_eq("right-operand-unchanged", o.at(i), f2(i))
        CTX.check("array-not-kept", z3.BoolVal(res.data.buf is not o.buf))


@contract("C12", [GC + "_perform_math_on_self", GC + "exp", GC + "log", GC + "__neg__", GC + "__pos__"],
          params=[(d, o) for d in (1, 2, 3) for o in ("exp", "log", "neg", "pos", "npexp", "nplog")])
def unary(d, op):
    r = repo()
    m = r.get("bdld.grid")
    g, rg, n, f = with_data(m, d)
    i = gidx(n)
    if "log" in op:
        CTX.assume(tb(f(i) > 0))
    res = {"exp": lambda: g.exp(), "log": lambda: g.log(), "neg": lambda: -g, "pos": lambda: +g,
           "npexp": lambda: m.np.exp(g), "nplog": lambda: m.np.log(g)}[op]()
    want = {"exp": core.sym_exp, "log": core.sym_log, "neg": lambda v: -v, "pos": lambda v: v}[op[-3:]](f(i))
    CTX.check("grid", z3.BoolVal(isinstance(res, m.Grid)))
    geometry_checks("result", res, rg, n)
    CTX.check_eq("point-by-point", res.data.at(i), want)
    CTX.check_eq("operand-unchanged", g.data.at(i), f(i))
    own("result", res, g)


@contract("C12", [GC + "_perform_arithmetic_operation"], params=[(d, o, w) for d in (1, 2, 3) for o in ("add", "sub", "mul", "truediv") for w in ("points", "lower", "upper", "dim")])
def different_points(d, op, what):
    """grids that differ in any dimension are never combined"""
    m = repo().get("bdld.grid")
    g, rg, n, f = with_data(m, d)
    if what == "dim":
        h, _, _, _ = with_data(m, d % 3 + 1, "o", "w")
    else:
        for a in range(d):
            if CTX.choose(f"dimension{a}"):
                break
        else:
            a = 0
        rg2, n2 = list(rg), list(n)
        if what == "points":
            n2[a] = integer("othern")
            CTX.assume(z3.And(n2[a].e >= 2, n2[a].e != n[a].e))
        else:
            o = real("other")
            CTX.assume(z3.And(o.e != (rg[a][0] if what == "lower" else rg[a][1]).e))
            rg2[a] = (o, rg[a][1]) if what == "lower" else (rg[a][0], o)
        h = m.from_npoints(SList(rg2), SList(n2))
        h.data = data_array("w", n2)[0]
    e, _ = raises(lambda: OPS[op](g, h), ValueError)
    CTX.check("rejected-with-ValueError", z3.BoolVal(e is not None))
    i = gidx(n)
    CTX.check_eq("operand-unchanged", g.data.at(i), f(i))


@contract("C12", [GC + "data"], params=[1, 2, 3])
def wrong_size(d):
    m = repo().get("bdld.grid")
    g, rg, n, f = with_data(m, d)
    k = integer("size")
    size = 1
    for q in n:
        size = size * q
    CTX.assume(z3.And(k.e >= 0, k.e != tr(size)))
    e, _ = raises(lambda: setattr(g, "data", symvec("flat", k)), ValueError)
    CTX.check("rejected-with-ValueError", z3.BoolVal(e is not None))
    i = gidx(n)
    CTX.check_eq("data-unchanged", g.data.at(i), f(i))


@contract("C12", [GC + "_perform_arithmetic_operation"], params=["str", "None", "list"])
def unsupported_operand(what):
    m = repo().get("bdld.grid")
    g, rg, n, f = with_data(m, 1)
    o = {"str": "1", "None": None, "list": SList([1.0])}[what]
    e, _ = raises(lambda: g._perform_arithmetic_operation(o, operator.add), ValueError)
    CTX.check("rejected-with-ValueError", z3.BoolVal(e is not None))


@contract("C12", [GC + "__eq__", GC + "_same_points"], params=[1, 2, 3])
def equality(d):
    m = repo().get("bdld.grid")
    g, rg, n, f = with_data(m, d)
    h = m.from_npoints(SList(rg), SList(n))
    i = gidx(n)
    h.data = data_array("v", n)[0]
    CTX.check("equal-to-itself", tb(g == h))
    w, f2 = data_array("w", n)
    CTX.assume(z3.Not(tb(f2(i) == f(i))))
    h.data = w
    CTX.check("other-data-differs", z3.Not(tb(g == h)))
    n2 = list(n)
    n2[-1] = integer("othern")
    CTX.assume(z3.And(n2[-1].e >= 2, n2[-1].e != n[-1].e))
    h = m.from_npoints(SList(rg), SList(n2))
    h.data = data_array("v", n2)[0]
    CTX.check("other-points-differ", z3.Not(tb(g == h)))


@contract("C12", [GC + "write_to_file", GC + "points", GC + "axes"], params=[1, 2, ((3,),), ((2, 3),)])
def written_to_file(d):
    """the file holds every point next to its value, in the order of the points"""
    m = repo().get("bdld.grid")
    if isinstance(d, tuple):
        n, d = list(d), len(d)
        rg, _ = geometry(d)
        g = m.from_npoints(SList(rg), SList(n))
        arr, f = data_array("v", n)
        g.data = arr
    else:
        g, rg, n, f = with_data(m, d)
    CTX.events.clear()
    g.write_to_file("grid.dat", "%.5f", "#! FIELDS")
    ev = [e for e in CTX.events if e[0] in ("savetxt", "write2d", "loop")]
    if any(e[0] == "loop" for e in ev):
        raise Unsupported("writes in a loop")
    CTX.check("one-write", z3.BoolVal(len(ev) == 1))
    if len(ev) != 1:
        return
    e = ev[0]
    if e[0] == "savetxt":
        _, name, mode, data, o = e
        if d > 1:
            raise Unsupported("file of a multidimensional grid")
        CTX.check("format", z3.BoolVal(o["fmt"] == "%.5f" and o["header"] == "#! FIELDS" and o["comments"] == "" and o["newline"] == "\n" and o["delimiter"].isspace()))
    else:
        _, name, data, npts, fmt, head = e
        CTX.check("format", z3.BoolVal(fmt == "%.5f" and head == "#! FIELDS"))
        CTX.check("slices", z3.And(*[eq(npts[a], n[a]) for a in range(d)]) if len(npts) == d else z3.BoolVal(False))
    CTX.check("file", z3.BoolVal(name == "grid.dat"))
    size = 1
    for k in n:
        size = size * k
    CTX.check_eq("one-row-per-point", A.dim_size(data.shape[0]), size)
    CTX.check("columns", eq(data.shape[1], d + 1))
    for i in each(n):
        x = point(rg, n, i)
        for a in range(d):
            CTX.check_eq(f"point{a}", flat_at(data, i, n, a), x[a])
        CTX.check_eq("value-next-to-its-point", flat_at(data, i, n, d), f(i))
        CTX.check("grid-unchanged", eq(g.data.at(i), f(i)))
