"""C10 the histogram counts every sampled position exactly once.

Invariant of the histogram action before step t: base <= last_update <= t-1 and the
counts hold the sampled positions up to last_update (since the last reset)."""
from .common import *
from .strides import *
from .c09 import LDStub, trajectory_state

HA = "bdld/actions/histogram_action.py:HistogramAction."
H = "bdld/histogram.py:Histogram."
TA = "bdld/actions/trajectory_action.py:TrajectoryAction."
GV = "bdld/actions/action.py:get_valid_data"
TRUSTED = ["np.histogramdd: equidistant edges from numbers and ranges; counts the samples per half-open bin (last bin closed)",
           "numpy slicing, reshape, fill (contracts of engine/npshim.py)"]
ASSUMPTIONS = [REALS, "the trajectory action runs before the histogram action (C17)"]


def make(d, C, reset=None, filename=None, ws=None):
    n = integer("N")
    CTX.assume(n >= 1)
    ld = LDStub(d, n)
    P = z3.Function("P", I, I, I, R)

    class Traj:
        pass
    tr_ = Traj()
    tr_.ld, tr_.write_stride, tr_.stride, tr_.filenames = ld, C.W, integer("traj_stride"), None
    tr_.last_write = integer("traj_last_write")
    Gb = z3.Function("garbage", I, I, I, R)

    def cell(idx):
        tau = C.time_of(idx[0])
        return ite(tau <= C.t, wrap(P(tr(tau), tr(idx[1]), tr(idx[2]))), wrap(Gb(*[tr(x) for x in idx])))
    tr_.positions = from_fn((C.W, n, d), cell)
    bins = SList([integer(f"bins{a}") for a in range(d)])
    for b in bins:
        CTX.assume(b >= 1)
    lo, hi = [real(f"lo{a}") for a in range(d)], [real(f"hi{a}") for a in range(d)]
    for a in range(d):
        CTX.assume(hi[a] > lo[a])
    m = repo().get("bdld.actions.histogram_action")
    log = []

    class Recorder:
        def __init__(self, *a):
            pass

        def add(self, data):
            log.append(("add", asarray(data).copy()))

        def clear(self):
            log.append(("clear",))

        def write_to_file(self, *a, **k):
            log.append(("write", a[0] if a else k.get("filename")))
    m.Histogram = Recorder
    o = m.HistogramAction(tr_, bins, SList(list(zip(lo, hi))), C.s, reset, filename, ws)
    for at in ("last_update", "histo"):
        if not hasattr(o, at):
            raise Unsupported(f"no attribute {at}")
    CTX.check("nothing-counted-yet", eq(o.last_update, 0))
    o.__dict__["last_update"] = C.lw
    closed(o, ("last_update", "histo"))
    log.clear()
    return o, log, n, P


def counted(o, C, log, n, d, P, must):
    adds = [e for e in log if e[0] == "add"]
    if not adds:
        CTX.check("counted-before-the-storage-wraps", z3.Not(tb(must)))
        CTX.check("last-update-kept", eq(o.last_update, C.lw))
        return
    CTX.check("counted-once", z3.BoolVal(len(adds) == 1))
    CTX.check("last-update", eq(o.last_update, C.t))
    x = adds[0][1]
    CTX.check("one-position-per-row", z3.BoolVal(len(x.shape) == 2))
    CTX.check("dimension", eq(x.shape[1], d))
    prod = isinstance(x.shape[0], A.Prod) and len(x.shape[0]) == 2
    CTX.check("all-sampled-positions", z3.And(eq(x.shape[0][0], C.count), eq(x.shape[0][1], n)) if prod else eq(A.dim_size(x.shape[0]), C.count * n))
    if not bool(wrap(tr(C.count) > 0)):
        return
    q, i = CTX.fresh_int("q"), CTX.fresh_int("i")
    CTX.assume(z3.And(q.e >= 0, q.e < tr(C.count), i.e >= 0, i.e < n.e))
    if prod:
        row = (q, i)
    else:
        row = q * n + i
        CTX.hint_div(row, n, q, i)
        C.lemma("product", z3.And(tr(q * n) >= 0, tr(q * n + n) <= tr(C.count * n)))
    for a in range(d):
        CTX.check(f"position-of-its-own-step{a}", eq(x.at((row, a)), wrap(P(tr(C.tau(q)), i.e, z3.IntVal(a)))))


@contract("C10", [TA + "__init__", TA + "run", TA + "write"], params=[(d, f) for d in (1, 2, 3) for f in (None, "traj")])
def stored(d, filename):
    """what `make` assumes of the trajectory action: the positions of every step since the
    storage wrapped, whatever its stride and whether or not they are written"""
    C = Clock("every-step")
    C.at_step()
    n, s = integer("N"), C.s
    CTX.assume(n >= 1)
    if filename is None:
        s = integer("traj_stride")
        CTX.assume(s >= 1)
    ld = LDStub(d, n)
    o = repo().get("bdld.actions.trajectory_action").TrajectoryAction(ld, s, filename, None, C.W)
    CTX.check("size-of-the-storage", z3.And(eq(o.positions.shape[0], C.W), eq(o.write_stride, C.W)))
    pos, _ = trajectory_state(o, ld, d, None, C, C.t - 1).verif_spec
    o.run(C.t)
    j, i = CTX.fresh_int("j"), CTX.fresh_int("i")
    CTX.assume(z3.And(j.e >= 0, j.e < tr(C.W), i.e >= 0, i.e < n.e, tb(C.time_of(j) <= C.t)))
    for a in range(d):
        CTX.check(f"position-of-every-step{a}", eq(o.positions.at((j, i, a)), pos(C.time_of(j), i, a)))


@contract("C10", [HA + "__init__", HA + "run", HA + "get_traj_data", GV], params=[(d, w) for d in (1, 2, 3) for w in (False, True)])
def step(d, writes):
    C = Clock("every-step")
    C.at_step()
    ws = None
    if writes:
        ws = integer("write_stride")
        CTX.assume(ws >= 1)
    o, log, n, P = make(d, C, None, "hist" if writes else None, ws)
    o.run(C.t)
    counted(o, C, log, n, d, P, C.wraps)
    CTX.check("no-reset", z3.BoolVal(not [e for e in log if e[0] == "clear"]))


@contract("C10", [HA + "__init__", HA + "final_run", HA + "get_traj_data", GV], params=[(d, f) for d in (1, 2, 3) for f in (None, "hist")])
def end(d, filename):
    C = Clock("every-step")
    C.at_step(final=True)
    o, log, n, P = make(d, C, filename=filename)
    o.final_run(C.t)
    counted(o, C, log, n, d, P, wrap(tr(C.count) > 0))
    CTX.check("no-reset", z3.BoolVal(not [e for e in log if e[0] == "clear"]))
    w = [e for e in log if e[0] == "write"]
    CTX.check("written-exactly-with-filename", z3.BoolVal(len(w) == (1 if filename else 0)))
    CTX.check("written-after-counting", z3.BoolVal(not w or log[-1][0] == "write"))


@contract("C10", [HA + "__init__", HA + "run", HA + "write"], params=["reset", "reset+write"])
def reset_and_write(kind):
    """reset exactly at the configured steps, after the update and the write of that step"""
    C = Clock("every-step")
    C.at_step()
    k = integer("number_of_resets")
    CTX.assume(k >= 1)
    f = z3.Function("reset", I, I)
    ws = None
    if "write" in kind:
        ws = integer("write_stride")
        CTX.assume(ws >= 1)
    steps = SList.of(k, lambda j: wrap(f(tr(j))))
    o, log, n, P = make(1, C, steps, "hist" if ws is not None else None, ws)
    o.run(C.t)
    want = tb(A.quant_any((k,), lambda j: wrap(f(tr(j[0])) == tr(C.t))))
    cl = [j for j, e in enumerate(log) if e[0] == "clear"]
    if not cl:
        counted(o, C, log, n, 1, P, C.wraps)
    CTX.check("reset-exactly-at-its-steps", want if cl else z3.Not(want))
    CTX.check("reset-last", z3.BoolVal(not cl or cl == [len(log) - 1]))
    w = [j for j, e in enumerate(log) if e[0] == "write"]
    if ws is None:
        CTX.check("no-write", z3.BoolVal(not w))
    else:
        due = tb(C.t % ws == 0)
        CTX.check("written-exactly-when-due", due if w else z3.Not(due))
        ad = [j for j, e in enumerate(log) if e[0] == "add"]
        CTX.check("one-write-after-the-update", z3.BoolVal(len(w) <= 1 and (not w or not ad or ad[-1] < w[0])))


def histogram(d):
    m = repo().get("bdld.histogram")
    n = [integer(f"bins{a}") for a in range(d)]
    for b in n:
        CTX.assume(b >= 1)
    lo, hi = [real(f"lo{a}") for a in range(d)], [real(f"hi{a}") for a in range(d)]
    for a in range(d):
        CTX.assume(hi[a] > lo[a])
    h = m.Histogram(SList(n), SList(list(zip(lo, hi))))
    idx = [integer(f"i{a}") for a in range(d)]
    for i, b in zip(idx, n):
        CTX.assume(z3.And(i.e >= 0, i.e < b.e))
    return h, n, lo, hi, tuple(idx)


@contract("C10", [H + "__init__", H + "clear", H + "add"], params=[1, 2, 3])
def counts(d):
    h, n, lo, hi, idx = histogram(d)
    CTX.check("one-count-per-bin", z3.BoolVal(len(h.data.shape) == d and all(A.same(x, y) for x, y in zip(h.data.shape, n))))
    CTX.check("new-histogram-is-empty", eq(h.data.at(idx), 0))
    D = z3.Function("D", *[I] * d, R)
    h.data.buf.hold((None, lambda i: wrap(D(*[tr(x) for x in i]))))
    M = integer("M")
    CTX.assume(M >= 0)
    X = z3.Function("X", I, I, R)
    old = wrap(D(*[tr(x) for x in idx]))
    h.add(from_fn((M, d), lambda i: wrap(X(tr(i[0]), tr(i[1])))))

    def inside(m):
        c = []
        for a in range(d):
            w = (hi[a] - lo[a]) / n[a]
            x = wrap(X(tr(m), z3.IntVal(a)))
            c.append(tb(x >= lo[a] + idx[a] * w))
            c.append(z3.Or(tb(x < lo[a] + (idx[a] + 1) * w), z3.And(tb(eq(idx[a], n[a] - 1)), eq(x, lo[a] + (idx[a] + 1) * w))))
        return wrap(z3.If(z3.And(*c), z3.IntVal(1), z3.IntVal(0)))
    CTX.check_eq("adds-to-the-existing-counts", h.data.at(idx), old + A.agg_sum(M, inside))
    h.clear()
    CTX.check("cleared", eq(h.data.at(idx), 0))


@contract("C10", [H + "__init__", H + "bin_centers", H + "axes", "bdld/grid.py:Grid.points"], params=[1, 2, 3])
def midpoints(d):
    h, n, lo, hi, idx = histogram(d)
    mid = lambda a, i: lo[a] + (hi[a] - lo[a]) / n[a] * (i + 0.5)
    for ax in (h.axes(), h.bin_centers()):
        CTX.check("one-axis-per-dimension", z3.BoolVal(len(ax) == d))
        for a in range(d):
            CTX.check("one-coordinate-per-bin", eq(ax[a].shape[0], n[a]))
            CTX.check_eq("bin-midpoint", ax[a].at((idx[a],)), mid(a, idx[a]))
    for a in range(d):
        CTX.check_eq("first-point", h.ranges[a][0], mid(a, 0))
        CTX.check_eq("last-point", h.ranges[a][1], mid(a, n[a] - 1))
        CTX.check("number-of-points", eq(h.n_points[a], n[a]))
        CTX.check_eq("stepsize", h.stepsizes[a], (hi[a] - lo[a]) / n[a])
    from .gridfix import flat_at
    p = h.points()
    for a in range(d):
        CTX.check_eq("point-of-bin", flat_at(p, idx, n, a), mid(a, idx[a]))
