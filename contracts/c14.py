"""C14 state membership and particle counts."""
from .common import *

PD = "bdld/actions/particle_distribution.py:ParticleDistributionAction."
TRUSTED = ["numpy comparisons, boolean arithmetic, np.array of a list of arrays and sum() (contracts of engine/npshim.py)",
           "contract: particles is a list of N objects with attribute pos of d numbers"]
ASSUMPTIONS = [REALS]


def boxes(S, d):
    """S arbitrary boxes; S concrete or symbolic"""
    lo = z3.Function("lo", I, I, R)
    hi = z3.Function("hi", I, I, R)

    def box(s, a):
        return wrap(lo(tr(s), z3.IntVal(a))), wrap(hi(tr(s), z3.IntVal(a)))
    mk = lambda s: SList([box(s, a) for a in range(d)])
    st = SList([mk(s) for s in range(S)]) if isinstance(S, int) else SList.of(S, mk)
    return st, box


def count_of_states():
    S = integer("S")
    CTX.assume(S >= 0)
    return S


class P:
    pass


def walkers(d, n=None):
    if n is None:
        n = integer("N")
        CTX.assume(n >= 1)
    return ObjList.make(n, P, {"pos": d}, tag=False), n


def inside(pos, box, s, d):
    return z3.And(*[z3.And(tb(pos[a] >= box(s, a)[0]), tb(pos[a] <= box(s, a)[1])) for a in range(d)])


def state_index(S, name="s"):
    s = integer(name)
    CTX.assume(z3.And(s.e >= 0, s.e < tr(S)))
    return s


@contract("C14", ["bdld/tools.py:pos_inside_ranges"], params=[(d, k) for d in (1, 2, 3) for k in (0, 1, 2, 3, "any")])
def membership(d, k):
    """any number of positions; any number of states"""
    m = repo().get("bdld.tools")
    S = count_of_states() if k == "any" else k
    n = integer("N")
    CTX.assume(n >= 0)
    x = z3.Function("x", I, I, R)
    pos = from_fn((n, d), lambda i: wrap(x(tr(i[0]), tr(i[1]))))
    st, box = boxes(S, d)
    r = m.pos_inside_ranges(pos, st)
    CTX.check("one-entry-per-state", eq(r.sym_len() if hasattr(r, "sym_len") else len(r), S))
    i = integer("i")
    CTX.assume(z3.And(i.e >= 0, i.e < n.e))
    for s in (range(S) if isinstance(S, int) else [None]):
        if s is None:
            CTX.assume(S >= 1)
            s = state_index(S)
        v = r[s]
        CTX.check("one-entry-per-position", z3.BoolVal(v.ndim == 1 and A.same(v.shape[0], n)))
        CTX.check("inside-closed-box", tb(v.at((i,))) == inside([wrap(x(i.e, z3.IntVal(a))) for a in range(d)], box, s, d))
    for a in range(d):
        CTX.check("positions-unchanged", eq(pos.at((i, a)), wrap(x(i.e, z3.IntVal(a)))))


def expected(parts, old, n, box, s, d):
    g = old["pos"]
    return A.agg_sum(n, lambda i: ite(inside([g((i, a)) for a in range(d)], box, s, d), 1, 0))


@contract("C14", [PD + "__init__", PD + "count_particles", "bdld/tools.py:pos_inside_ranges"], params=[(d, k) for d in (1, 2, 3) for k in (1, 2, 3, "any")])
def counts(d, k):
    m = repo().get("bdld.actions.particle_distribution")
    S = count_of_states() if k == "any" else k
    ps, n = walkers(d)
    st, box = boxes(S, d)
    o = m.ParticleDistributionAction(ps, st)
    replace_walker(ps)
    old = ps.snapshot()
    CTX.events.clear()
    earlier(o, lambda: other_walkers(ps, o.count_particles), ("particles",))
    c = o.count_particles()
    CTX.check("one-count-per-state", eq(c.sym_len() if hasattr(c, "sym_len") else len(c), S))
    for s in (range(S) if isinstance(S, int) else [None]):
        if s is None:
            CTX.assume(S >= 1)
            s = state_index(S)
        CTX.check_eq("number-inside", c[s], expected(ps, old, n, box, s, d))


@contract("C14", [PD + "__init__", PD + "run", PD + "write", PD + "count_particles"], params=[(d, k) for d in (1, 2, 3) for k in (1, 2, "any")])
def reported_row(d, k):
    """every evaluated step: the row written is the step and the counts at that step"""
    m = repo().get("bdld.actions.particle_distribution")
    S = count_of_states() if k == "any" else k
    if k == "any":
        CTX.assume(S >= 1)
    ps, n = walkers(d)
    st, box = boxes(S, d)
    stride = integer("stride")
    CTX.assume(stride >= 1)
    q = integer("q")
    CTX.assume(q >= 1)
    o = m.ParticleDistributionAction(ps, st, stride, "file", stride)
    CTX.events.clear()
    replace_walker(ps)
    old = ps.snapshot()
    o.__dict__["last_write"] = (q - 1) * stride
    closed(o, ("last_write", "counts"))
    step = q * stride
    CTX.hint_div(step, stride, q, 0)
    CTX.hint_div((q - 1) * stride, stride, q - 1, 0)
    o.run(step)
    ev = [e for e in CTX.events if e[0] == "savetxt"]
    CTX.check("one-write", z3.BoolVal(len(ev) == 1))
    if len(ev) != 1:
        return
    data = ev[0][3]
    CTX.check("one-row", eq(data.shape[0], 1))
    CTX.check("columns", eq(data.shape[1], S + 1))
    CTX.check_eq("step", data.at((0, 0)), step)
    for s in (range(S) if isinstance(S, int) else [None]):
        if s is None:
            s = state_index(S)
        CTX.check_eq("count", data.at((0, s + 1)), expected(ps, old, n, box, s, d))


@contract("C14", [PD + "__init__", PD + "final_run", PD + "write", PD + "count_particles"], params=[(d, k) for d in (1, 2, 3) for k in (1, 2, "any")])
def final_row(d, k):
    m = repo().get("bdld.actions.particle_distribution")
    S = count_of_states() if k == "any" else k
    if k == "any":
        CTX.assume(S >= 1)
    ps, n = walkers(d)
    st, box = boxes(S, d)
    o = m.ParticleDistributionAction(ps, st, None, "file")
    CTX.events.clear()
    replace_walker(ps)
    old = ps.snapshot()
    t = integer("t")
    CTX.assume(t >= 1)
    o.run(t)
    CTX.check("nothing-before-the-end", z3.BoolVal(not [e for e in CTX.events if e[0] == "savetxt"]))
    o.final_run(t)
    ev = [e for e in CTX.events if e[0] == "savetxt"]
    CTX.check("one-write", z3.BoolVal(len(ev) == 1))
    data = ev[0][3]
    CTX.check("one-row", eq(data.shape[0], 1))
    CTX.check_eq("step", data.at((0, 0)), t)
    for s in (range(S) if isinstance(S, int) else [None]):
        if s is None:
            s = state_index(S)
        CTX.check_eq("count", data.at((0, s + 1)), expected(ps, old, n, box, s, d))


def configured(prop, name, action, arg, d, k):
    """states given in the input file reach the action in the order of their numbers"""
    m = repo().get("bdld.main")
    lohi = [[(real(f"min{s}_{a}"), real(f"max{s}_{a}")) for a in range(d)] for s in range(k)]
    opt = {}
    for s in range(k):
        opt[f"state{s + 1}-min"] = SList([x[0] for x in lohi[s]])
        opt[f"state{s + 1}-max"] = SList([x[1] for x in lohi[s]])
    opt.update({"stride": None, "filename": None, "write-stride": None, "fmt": None})
    got = []
    if not hasattr(m, action):
        raise Unsupported(f"no {action}")
    setattr(m, action, lambda *a, **kw: got.append((a, kw)))
    parts = walkers(d)[0]
    getattr(m, name)(opt, Thing(particles=parts))
    a, kw = got[0]
    if arg == 0:
        CTX.check("walkers-of-the-dynamics", z3.BoolVal((a[0] if a else kw["particles"]) is parts))
    states = a[1] if len(a) > 1 else kw["states"]
    CTX.check("all-states", eq(states.sym_len() if hasattr(states, "sym_len") else len(states), k))
    for s in range(k):
        for q in range(d):
            CTX.check(f"box-of-state{s + 1}", z3.And(eq(states[s][q][0], lohi[s][q][0]), eq(states[s][q][1], lohi[s][q][1])))


CONFIGURED = ["bdld/main.py:setup_particle_distribution", "bdld/inputparser.py:get_all_numbered_values", "bdld/inputparser.py:min_max_to_ranges"]


@contract("C14", CONFIGURED, params=[(d, k) for d in (1, 2, 3) for k in (1, 2, 3, 12)])
def configured_states(d, k):
    configured("C14", "setup_particle_distribution", "ParticleDistributionAction", 0, d, k)
