"""C09 every sampled step is written exactly once, in order, with its own data.

Representation invariant of the three actions before step t (stride s, write stride W,
base = largest multiple of W below t):
  * the row of the storage array belonging to time tau, base < tau <= t-1, holds the
    sample of tau;  base <= last_write <= t-1;  the file holds the rows up to last_write.
run(t) has to keep it for t+1 and may only append the rows for (last_write, t]; it has
to do so when the storage wraps (t a multiple of W).  final_run appends the rest."""
from .common import *
from .strides import *

TRUSTED = ["np.savetxt appends one line per row of the array to the file opened in append mode",
           "numpy slicing, np.c_ and array assignment (contracts of engine/npshim.py)"]
ASSUMPTIONS = [REALS, "steps are consecutive integers starting at 1 (C17)", "delta_f / particle_distribution: write stride is a multiple of the stride (checked by the constructors, C16)"]
GV = "bdld/actions/action.py:get_valid_data"
TR = "bdld/actions/trajectory_action.py:TrajectoryAction."
DF = "bdld/actions/delta_f_action.py:DeltaFAction."
PD = "bdld/actions/particle_distribution.py:ParticleDistributionAction."


@contract("C09", [GV], params=["every-step", "own-stride"])
def valid_rows(kind):
    m = repo().get("bdld.actions.action")
    C = Clock(kind)
    C.at_step(final=True)
    P = z3.Function("P", I, I, R)
    dim = integer("dim")
    CTX.assume(dim >= 1)
    data = from_fn((C.rows, dim), lambda i: wrap(P(tr(i[0]), tr(i[1]))))
    r = m.get_valid_data(data, C.t, C.s, C.u, C.lw)
    CTX.check("one-row-per-multiple-of-the-stride", eq(r.shape[0], C.count))
    q, a = CTX.fresh_int("q"), CTX.fresh_int("a")
    CTX.assume(z3.And(q.e >= 0, q.e < tr(C.count), a.e >= 0, a.e < dim.e))
    CTX.check("row-of-its-own-step", eq(r.at((q, a)), wrap(P(tr(C.row_of(q)), a.e))))


class LDStub:
    def __init__(self, d, n):
        self.particles, _ = ObjList.make(n, object, {"pos": d, "mom": d}, tag=False), None
        self.dt = real("dt")
        CTX.assume(self.dt > 0)

        class Pot:
            n_dim = d

            def get_fields(self):
                return repo().get("bdld.potential.potential").Potential.get_fields(self)
        self.pot = Pot()


def saved():
    """[(loop variable, number, condition, event)] of all writes"""
    out = []
    for e in CTX.events:
        if e[0] == "savetxt":
            out.append((None, 1, z3.BoolVal(True), e))
        elif e[0] == "loop":
            for c, evs in e[3]:
                for x in evs:
                    if x[0] == "loop":
                        raise Unsupported("writes in nested loops")
                    if x[0] == "savetxt":
                        out.append((e[1], e[2], c, x))
    return out


def trajectory(d, mom, C, done):
    n = integer("N")
    CTX.assume(n >= 1)
    ld = LDStub(d, n)
    o = repo().get("bdld.actions.trajectory_action").TrajectoryAction(ld, C.s, "traj", mom, C.W)
    return trajectory_state(o, ld, d, mom, C, done), n


def trajectory_state(o, ld, d, mom, C, done):
    """arbitrary state in which the samples up to `done` are stored"""
    P, Gb = z3.Function("P", I, I, I, R), z3.Function("garbage", I, I, I, R)
    M = z3.Function("M", I, I, I, R)
    for at in ("positions", "times", "last_write") + (("momentum",) if mom else ()):
        if not hasattr(o, at):
            raise Unsupported(f"storage {at}")

    def fill(arr, shape, fn, width):
        if not isinstance(arr, SymArray) or len(arr.shape) != len(shape) or not all(A.same(x, y) for x, y in zip(arr.shape, shape)):
            raise Unsupported("shape of the storage")

        def cell(idx):
            tau = C.time_of(idx[0])
            i = list(idx[1:]) + [0] * (3 - len(idx))
            return ite(tau <= done, fn(tau, *i), wrap(Gb(*[tr(x) for x in [idx[0]] + i])))
        arr.buf.hold((None, cell))
    n = ld.particles.sym_len()
    replace_walker(ld.particles)
    now = ld.particles.snapshot()
    hist = lambda f: lambda tau, i, a: wrap(f(tr(tau), tr(i), tr(a)))
    fill(o.positions, (C.W, n, d), hist(P), d)
    fill(o.times, (C.W, 1), lambda tau, *_: tau * ld.dt, 1)
    if mom:
        fill(o.momentum, (C.W, n, d), hist(M), d)
    o.__dict__["last_write"] = C.lw
    closed(o, ("positions", "times", "momentum", "last_write", "verif_spec"))
    CTX.events.clear()
    at_t = lambda f, key: lambda tau, i, a: ite(eq(tau, C.t), now[key]((i, a)), hist(f)(tau, i, a)) if done is not C.t else hist(f)(tau, i, a)
    o.verif_spec = (at_t(P, "pos"), at_t(M, "mom"))
    return o


def written(o, C, name, sample, n, width, fmt="%14.9f"):
    """the rows for (last_write, t] were appended"""
    ev = saved()
    due = tb(C.wraps)
    if not ev:
        CTX.check("written-before-the-storage-wraps", z3.Not(due))
        CTX.check("last-write-kept", eq(o.last_write, C.lw))
        return
    if len(ev) != 1:
        CTX.check("one-write", z3.BoolVal(False))
        return
    k, num, cond, e = ev[0]
    CTX.check("one-write-per-file", z3.And(tb(cond), eq(num, n)))
    if k is None:
        i = 0
        CTX.check("file", z3.BoolVal(e[1] == name))
    else:
        i = SymInt(k)
        CTX.assume(z3.And(k >= 0, k < tr(n)))
        from engine.values import SymStr
        same_text("file", e[1], SymStr.make([f"{name}.", (i, "")]))
    CTX.check("appended", z3.BoolVal("a" in e[2]))
    CTX.check("one-line-per-row", z3.BoolVal(e[4]["newline"] == "\n" and not e[4]["header"] and e[4]["delimiter"].isspace()))
    rows_are(e[3], C, sample, i, width)
    CTX.check("last-write", eq(o.last_write, C.t))


def rows_are(data, C, sample, i, width):
    CTX.check("one-row-per-sample", eq(data.shape[0], C.count))
    CTX.check("columns", eq(data.shape[1], width))
    if not bool(wrap(tr(C.count) > 0)):
        return
    q = CTX.fresh_int("q")
    CTX.assume(z3.And(q.e >= 0, q.e < tr(C.count)))
    tau = C.tau(q)
    for j, v in sample(tau, i).items():
        if callable(v):
            j0, a = j, CTX.fresh_int("a")
            CTX.assume(z3.And(a.e >= 0, a.e < tr(width) - j0))
            CTX.check(f"column{j0}+", eq(data.at((q, a + j0)), v(a)))
        else:
            CTX.check(f"column{j}", eq(data.at((q, j)), v))


@contract("C09", [TR + "__init__", TR + "run", TR + "write", GV], params=[(d, m) for d in (1, 2, 3) for m in (None, True)] + [(1, False)])
def trajectory_step(d, mom):
    C = Clock("every-step")
    C.at_step()
    o, n = trajectory(d, mom, C, C.t - 1)
    pos, mo = o.verif_spec
    o.run(C.t)
    dt = o.ld.dt

    def sample(tau, i):
        r = {0: tau * dt}
        for a in range(d):
            r[1 + a] = pos(tau, i, a)
            if mom:
                r[1 + d + a] = mo(tau, i, a)
        return r
    written(o, C, "traj", sample, n, 1 + d * (2 if mom else 1))
    j, i = CTX.fresh_int("j"), CTX.fresh_int("i")
    CTX.assume(z3.And(j.e >= 0, j.e < tr(C.W), i.e >= 0, i.e < n.e, tb(C.time_of(j) <= C.t)))
    tau = C.time_of(j)
    for a in range(d):
        CTX.check(f"stored-position{a}", eq(o.positions.at((j, i, a)), pos(tau, i, a)))
        if mom:
            CTX.check(f"stored-momentum{a}", eq(o.momentum.at((j, i, a)), mo(tau, i, a)))
    CTX.check("stored-time", eq(o.times.at((j, 0)), tau * dt))


@contract("C09", [TR + "__init__", TR + "final_run", TR + "write", GV], params=[(d, m) for d in (1, 2, 3) for m in (None, True)] + [(1, False)])
def trajectory_end(d, mom):
    C = Clock("every-step")
    C.at_step(final=True)
    o, n = trajectory(d, mom, C, C.t)
    pos, mo = o.verif_spec
    o.final_run(C.t)
    dt = o.ld.dt

    def sample(tau, i):
        r = {0: tau * dt}
        for a in range(d):
            r[1 + a] = pos(tau, i, a)
            if mom:
                r[1 + d + a] = mo(tau, i, a)
        return r
    C.wraps = wrap(tr(C.count) > 0)
    written(o, C, "traj", sample, n, 1 + d * (2 if mom else 1))


def delta_f(C, stride=True):
    m = repo().get("bdld.actions.delta_f_action")
    K = integer("K")
    CTX.assume(K >= 1)
    n = integer("n")
    CTX.assume(n >= 2)
    fes = from_fn((n,), lambda i: wrap(z3.Function("fes", I, R)(tr(i[0]))))

    class Obj:
        pass
    fa = Obj()
    fa.fes, fa.kt, fa.histo_action, fa.stride = Obj(), real("kt"), Obj(), integer("fes_stride")
    fa.fes.data = fes
    CTX.assume(z3.And(fa.kt.e > 0, fa.stride.e >= 1))
    fa.histo_action.traj_action = Obj()
    fa.histo_action.traj_action.ld = Obj()
    fa.histo_action.traj_action.ld.dt = dt = real("dt")
    mask = z3.Function("mask", I, I, B)
    masks = SList.of(K, lambda k: from_fn((n,), lambda i: wrap(mask(tr(k), tr(i[0]))), "b"))
    now = z3.Function("deltaF", I, R)

    def calculate_delta_f(f, kt, ms):
        CTX.check("delta-f.of-the-current-fes", z3.BoolVal(f is fes or (isinstance(f, SymArray) and f.buf is fes.buf)))
        CTX.check("delta-f.thermal-energy", eq(kt, fa.kt))
        CTX.check("delta-f.states", z3.BoolVal(ms is masks))
        if bool(K == 1):
            return SList([])
        return SList.of(K - 1, lambda j: wrap(now(tr(j))))
    if not hasattr(m, "calculate_delta_f"):
        raise Unsupported("no function calculate_delta_f")
    m.calculate_delta_f = calculate_delta_f
    o = m.DeltaFAction(fa, masks, C.s if stride else None, "df", C.W if stride else None)
    return o, "delta_f", K, lambda t: t * dt, lambda j: wrap(now(tr(j)))


def distribution(C, stride=True):
    m = repo().get("bdld.actions.particle_distribution")
    S = integer("S")
    CTX.assume(S >= 1)
    n = integer("N")
    CTX.assume(n >= 1)
    ps = ObjList.make(n, object, {"pos": 1}, tag=False)
    box = z3.Function("box", I, I, R)
    states = SList.of(S, lambda k: SList([(wrap(box(tr(k), z3.IntVal(0))), wrap(box(tr(k), z3.IntVal(1))))]))
    o = m.ParticleDistributionAction(ps, states, C.s if stride else None, "pd", C.W if stride else None)
    now = z3.Function("counted", I, R)
    if not hasattr(o, "count_particles"):
        raise Unsupported("no method count_particles")
    o.__dict__["count_particles"] = lambda: SList.of(S, lambda j: wrap(now(tr(j))))
    return o, "counts", S + 1, lambda t: t, lambda j: wrap(now(tr(j)))


def stored(o, attr, C, width, time, now, done):
    """arbitrary state in which the samples up to `done` are stored"""
    arr = getattr(o, attr, None)
    if not isinstance(arr, SymArray) or len(arr.shape) != 2 or not A.same(arr.shape[0], C.rows) or not A.same(arr.shape[1], width) \
            or not hasattr(o, "last_write"):
        raise Unsupported("storage")
    H, Gb = z3.Function("H", I, I, R), z3.Function("garbage", I, I, R)

    def cell(idx):
        tau = C.time_of(idx[0])
        v = ite(eq(idx[1], 0), time(tau), wrap(H(tr(tau), tr(idx[1]) - 1)))
        return ite(tau <= done, v, wrap(Gb(tr(idx[0]), tr(idx[1]))))
    arr.buf.hold((None, cell))
    o.__dict__["last_write"] = C.lw
    closed(o, (attr, "last_write"))
    CTX.events.clear()

    def sample(tau, i):
        past = lambda j: wrap(H(tr(tau), tr(j)))
        return {0: time(tau), 1: past if done is C.t else (lambda j: ite(eq(tau, C.t), now(j), past(j)))}
    return sample


MAKE = {"delta_f": delta_f, "distribution": distribution}
FILE = {"delta_f": "df", "distribution": "pd"}


@contract("C09", [DF + "__init__", DF + "run", DF + "write", PD + "__init__", PD + "run", PD + "write", GV], params=["delta_f", "distribution"])
def analysis_step(kind):
    C = Clock("own-stride")
    C.at_step()
    o, attr, width, time, now = MAKE[kind](C)
    sample = stored(o, attr, C, width, time, now, C.t - 1)
    o.run(C.t)
    written(o, C, FILE[kind], sample, 1, width)
    j, a = CTX.fresh_int("j"), CTX.fresh_int("a")
    CTX.assume(z3.And(j.e >= 0, j.e < tr(C.rows), tb(C.time_of(j) <= C.t)))
    tau = C.time_of(j)
    arr = getattr(o, attr)
    sm = sample(tau, 0)
    CTX.check("stored-time", eq(arr.at((j, 0)), sm[0]))
    if not bool(wrap(tr(width) > 1)):
        return
    CTX.assume(z3.And(a.e >= 0, a.e < tr(width) - 1))
    CTX.check("stored-values", eq(arr.at((j, a + 1)), sm[1](a)))


@contract("C09", [DF + "__init__", DF + "final_run", DF + "write", PD + "__init__", PD + "final_run", PD + "write", GV], params=["delta_f", "distribution"])
def analysis_end(kind):
    C = Clock("own-stride")
    C.at_step(final=True)
    o, attr, width, time, now = MAKE[kind](C)
    sample = stored(o, attr, C, width, time, now, C.t)
    o.final_run(C.t)
    C.wraps = wrap(tr(C.count) > 0)
    written(o, C, FILE[kind], sample, 1, width)


@contract("C09", [DF + "__init__", DF + "run", DF + "final_run", DF + "write", PD + "__init__", PD + "run", PD + "final_run", PD + "write"],
          params=["delta_f", "distribution"])
def only_at_the_end(kind):
    """without a stride: one row of the last step"""
    C = Clock("own-stride")
    o, attr, width, time, now = MAKE[kind](C, stride=False)
    CTX.events.clear()
    t = integer("t")
    CTX.assume(t >= 1)
    o.run(t)
    CTX.check("nothing-before-the-end", z3.BoolVal(not saved()))
    o.final_run(t)
    ev = saved()
    CTX.check("one-row", z3.BoolVal(len(ev) == 1))
    if len(ev) != 1:
        return
    e = ev[0][3]
    CTX.check("file", z3.BoolVal(e[1] == FILE[kind] and "a" in e[2]))
    CTX.check("one-row", eq(e[3].shape[0], 1))
    CTX.check("columns", eq(e[3].shape[1], width))
    CTX.check("time", eq(e[3].at((0, 0)), time(t)))
    a = CTX.fresh_int("a")
    if not bool(wrap(tr(width) > 1)):
        return
    CTX.assume(z3.And(a.e >= 0, a.e < tr(width) - 1))
    CTX.check("values", eq(e[3].at((0, a + 1)), now(a)))


def started():
    """[(loop variable, number, condition, event)] of all files started with a header"""
    out = []
    for e in CTX.events:
        if e[0] == "initialize_file":
            out.append((None, 1, z3.BoolVal(True), e))
        elif e[0] == "loop":
            for c, evs in e[3]:
                out += [(e[1], e[2], c, x) for x in evs if x[0] == "initialize_file"]
                if any(x[0] == "loop" for x in evs):
                    raise Unsupported("files started in nested loops")
    return out


def same_text(name, a, b):
    from engine.values import str_eq
    c = str_eq(a, b)
    if c is None:
        raise Unsupported("comparison of texts")
    CTX.check(name, c)


def header(name, n, columns, width):
    """one header per file; columns(i, j) is the name of column j of file i"""
    from engine.values import SymStr
    ev = started()
    CTX.check("one-header-per-file", z3.BoolVal(len(ev) == 1))
    if len(ev) != 1:
        return
    k, num, cond, e = ev[0]
    CTX.check("one-header-per-file", z3.And(tb(cond), eq(num, n)))
    i = 0
    if k is None:
        same_text("header-in-the-file", e[1], name)
    else:
        i = SymInt(k)
        CTX.assume(z3.And(k >= 0, k < tr(n)))
        same_text("header-in-the-file", e[1], SymStr.make([f"{name}.", (i, "")]))
    f = e[2]
    if not isinstance(f, (list, tuple, SList)):
        raise Unsupported("field names of the header")
    f = f if isinstance(f, SList) else SList(list(f))
    CTX.check("header-names-every-column", eq(f.sym_len(), width))
    if isinstance(width, int):
        for j in range(width):
            same_text(f"header.column{j}", f[j], columns(i, j))
        return
    same_text("header.column0", f[0], columns(i, 0))
    if not bool(wrap(tr(width) > 1)):
        return
    a = CTX.fresh_int("a")
    CTX.assume(z3.And(a.e >= 1, a.e < tr(width)))
    same_text("header.column", f[a], columns(i, a))


@contract("C09", [TR + "__init__", "bdld/potential/potential.py:Potential.get_fields"], params=[(d, m) for d in (1, 2, 3) for m in (None, True)] + [(1, False)])
def trajectory_header(d, mom):
    from engine.values import SymStr
    C = Clock("every-step")
    n = integer("N")
    CTX.assume(n >= 1)
    repo().get("bdld.actions.trajectory_action").TrajectoryAction(LDStub(d, n), C.s, "traj", mom, C.W)
    names = ["pos_" + x for x in "xyz"[:d]] + (["mom_" + x for x in "xyz"[:d]] if mom else [])
    header("traj", n, lambda i, j: "time" if j == 0 else SymStr.make([names[j - 1] + ".", (i, "")]), 1 + len(names))


@contract("C09", [DF + "__init__", PD + "__init__"], params=[(k, s) for k in ("delta_f", "distribution") for s in (True, False)])
def analysis_header(kind, stride):
    from engine.values import SymStr
    C = Clock("own-stride")
    o, attr, width, time, now = MAKE[kind](C, stride=stride)
    if kind == "delta_f":
        header("df", 1, lambda i, j: "time" if isinstance(j, int) else SymStr.make(["delta_f.1-", (j + 1, "")]), width)
    else:
        header("pd", 1, lambda i, j: "timestep" if isinstance(j, int) else SymStr.make(["n_particles_", (j - 1, "")]), width)


@contract("C09", [TR + "__init__", DF + "__init__", PD + "__init__"], params=["trajectory", "delta_f", "distribution"])
def initially(kind):
    """the invariant holds for the first step: nothing is written yet"""
    C = Clock("every-step" if kind == "trajectory" else "own-stride")
    if kind == "trajectory":
        n = integer("N")
        CTX.assume(n >= 1)
        o = repo().get("bdld.actions.trajectory_action").TrajectoryAction(LDStub(1, n), C.s, "traj", None, C.W)
    else:
        o = MAKE[kind](C)[0]
    CTX.check("nothing-written-yet", eq(o.last_write, 0))
    CTX.check("no-rows-before-the-first-step", z3.BoolVal(not saved()))
    CTX.check("stride", eq(o.stride, C.s))
    CTX.check("write-stride", eq(o.write_stride, C.W))
