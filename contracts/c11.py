"""C11 free energies and free energy differences match the histogram."""
from .gridfix import *
from .c10 import histogram
from .c13 import nsum
from .c14 import boxes, inside

FA = "bdld/actions/fes_action.py:"
DA = "bdld/actions/delta_f_action.py:"
TRUSTED = ["numpy where/log/exp/min/sum and boolean indexing (contracts of engine/npshim.py)"]
ASSUMPTIONS = [REALS, "every state contains a bin that is not empty (else the difference is infinite or undefined)"]


def mid(h, lo, hi, n, a, i):
    return lo[a] + (hi[a] - lo[a]) / n[a] * (i + 0.5)


def counts(h, d):
    D = z3.Function("D", *[I] * d, I)  # whole numbers, stored as floats

    def get(idx):
        n = D(*[tr(x) for x in idx])
        CTX.fact(n >= 0)
        t = z3.ToReal(n)
        return wrap(t)
    h.data.buf.hold((None, get))
    return get


def thermal(name="kt"):
    kt = real(name)
    CTX.assume(kt > 0)
    return kt


@contract("C11", [FA + "calculate_fes", G + "Grid.copy_empty"], params=[1, 2, 3])
def free_energy(d):
    m = repo().get("bdld.actions.fes_action")
    h, n, lo, hi, i = histogram(d)
    D = counts(h, d)
    kt = thermal()

    def use():
        st = h.data.buf.state()
        counts(h, d)
        m.calculate_fes(h, kt)
        h.data.buf.set_state(st)
    earlier(h, use, ("data", "_data"))
    CTX.mins.clear()
    f = m.calculate_fes(h, kt)
    j = gidx(n, "j")
    v, w = core.Ext.of(f.data.at(i)), core.Ext.of(f.data.at(j))
    if bool(D(i) == 0):
        CTX.check("infinite-for-empty-bins", v.p)
    else:
        CTX.check("finite-for-other-bins", z3.Not(z3.Or(v.p, v.n)))
        for e in CTX.mins:
            e[6](i)
            e[6](j)
        CTX.check("not-below-zero", v.fin >= 0)
        at0 = [core.Ext.of(f.data.at(tuple(e[5]))) for e in CTX.mins]
        CTX.check("minimum-is-zero", z3.Or(*[z3.And(z3.Not(x.p), z3.Not(x.n), x.fin == 0) for x in at0]) if at0 else z3.BoolVal(False))
        if bool(D(j) > 0):
            CTX.check_eq("minus-kt-log-count-up-to-a-constant", wrap(v.fin) - wrap(w.fin), -kt * (core.sym_log(D(i)) - core.sym_log(D(j))))
    CTX.check("histogram-unchanged", eq(h.data.at(i), D(i)))
    CTX.check("own-data", z3.BoolVal(f.data.buf is not h.data.buf and f is not h))
    CTX.check("same-shape", z3.BoolVal(len(f.data.shape) == d and all(A.same(x, y) for x, y in zip(f.data.shape, n))))
    ax = f.axes()
    for a in range(d):
        CTX.check_eq("same-points", ax[a].at((i[a],)), mid(h, lo, hi, n, a, i[a]))
        CTX.check_eq("points-listed", flat_at(f.points(), i, n, a), mid(h, lo, hi, n, a, i[a]))


@contract("C11", [DA + "calculate_delta_f", "bdld/tools.py:pos_inside_ranges"], params=[(d, k) for d in (1, 2, 3) for k in (2, 3, "any")])
def differences(d, k):
    """masks of the states from the grid points, free energies possibly infinite"""
    r = repo()
    m, t = r.get("bdld.actions.delta_f_action"), r.get("bdld.tools")
    h, n, lo, hi, i = histogram(d)
    K = k
    if k == "any":
        K = integer("K")
        CTX.assume(K >= 2)
    kt = thermal()
    Ff, empty = z3.Function("F", *[I] * d, R), z3.Function("empty", *[I] * d, B)
    fes = from_fn(tuple(n), lambda x: core.Ext.mk(Ff(*[tr(q) for q in x]), empty(*[tr(q) for q in x]), z3.BoolVal(False)))
    st, box = boxes(K, d)
    masks = t.pos_inside_ranges(h.points(), st)

    def prob(s):
        def one(idx):
            pos = [mid(h, lo, hi, n, a, idx[a]) for a in range(d)]
            a = [tr(q) for q in idx]
            return ite(z3.And(inside(pos, box, s, d), z3.Not(empty(*a))), core.sym_exp(-wrap(Ff(*a)) / kt), 0.0)
        return nsum(n, one)
    ref = prob(0)
    CTX.fact_positive(trr(ref))
    q = CTX.fresh_int("q")
    CTX.assume(z3.And(q.e >= 0, q.e < tr(K) - 1))
    ps = {}
    for s in (range(1, k) if k != "any" else [q + 1]):
        ps[s if k != "any" else 0] = (s, prob(s))
        CTX.fact_positive(trr(ps[s if k != "any" else 0][1]))
    for j, s in enumerate([0, 1, 2] if k != "any" else [0, q.e, q.e + 1]):  # wishes only: states that hold grid points
        for a in range(d):
            l, u = (tr(x) for x in box(wrap(z3.IntVal(s)) if isinstance(s, int) else wrap(s), a))
            CTX.hints += [l == tr(lo[a]) + z3.Q(j, 5) * (tr(hi[a]) - tr(lo[a])), u == tr(hi[a]) + 1]
    out = m.calculate_delta_f(fes, kt, masks)
    CTX.check("one-value-per-further-state", eq(out.sym_len() if hasattr(out, "sym_len") else len(out), K - 1))
    for s, p in ps.values():
        CTX.check_eq("relative-to-the-first-state", out[s - 1], -kt * core.sym_log(p / ref))
    CTX.check("free-energy-unchanged", eq(fes.at(i), core.Ext.mk(Ff(*[tr(x) for x in i]), empty(*[tr(x) for x in i]), z3.BoolVal(False))))


def fes_setup(given, stride, filename=None, plot=None, **more):
    """FesAction on a histogram whose data changes; calculate_fes replaced by its contract"""
    m = repo().get("bdld.actions.fes_action")
    kld, k = thermal("kt_ld"), thermal("kt_given")
    pot = Thing(get_fields=lambda: SList(["x"]), n_dim=1)
    n = integer("n")
    CTX.assume(n >= 2)
    count = lambda name: (lambda i: wrap(z3.Function(name, I, R)(tr(i[0]))))

    class Histo(Thing):
        looked, store = False, from_fn((n,), count("counts0"))

        @property
        def data(self):
            self.__dict__["looked"] = True
            return self.store

        def change(self, name):
            self.store.buf.set_state((None, count(name)))
    histo = Histo(n_dim=1, ranges=SList([(real("lo"), real("hi"))]), n_points=SList([n]))
    up = integer("update_stride")
    CTX.assume(up >= 1)
    ha = Thing(traj_action=Thing(ld=Thing(kt=kld, pot=pot, dt=real("dt"))), histo=histo, update_stride=up)
    calls = []
    want = k if given else kld
    F = z3.Function("F", I, R)

    def calculate_fes(h, kt, *a, **kw):
        CTX.check("fes-of-this-histogram", z3.BoolVal(h is histo))
        CTX.check("fes-with-the-configured-thermal-energy", eq(kt, want))
        CTX.check("fes-minimum-at-zero", z3.BoolVal(not a and not kw or (list(a) + list(kw.values())) == [True]))
        log = []
        f = Thing(data=from_fn((n,), lambda i: wrap(F(tr(i[0])))), written=log,
                  write_to_file=lambda *a, **k: log.append(a[0] if a else k.get("filename")), axes=lambda: SList([]))
        calls.append(f)
        return f
    if not hasattr(m, "calculate_fes"):
        raise Unsupported("no function calculate_fes")
    m.calculate_fes = calculate_fes
    if plot is not None:
        if not hasattr(m, "plot_fes"):
            raise Unsupported("no function plot_fes")
        m.plot_fes = plot
    o = m.FesAction(ha, stride, filename, kt=k if given else None, **more)
    CTX.check("thermal-energy", eq(o.kt, want))
    return o, calls, want, histo


@contract("C11", [FA + "FesAction.__init__", FA + "FesAction.run", FA + "FesAction.final_run"],
          params=[(g, s) for g in (False, True) for s in (False, True)] + [(False, "later")])
def current_free_energy(given, periodic):
    """the fes attribute is that of the histogram of the last multiple of the stride / of the end"""
    s, t = integer("stride"), integer("t")
    CTX.assume(z3.And(s.e >= 1, t.e >= 1))
    o, calls, kt, histo = fes_setup(given, s if periodic else None, "fes")
    first = o.fes
    CTX.check("available-from-the-start", z3.BoolVal(len(calls) == 1 and first is calls[0]))
    if periodic == "later":  # an earlier step, with another histogram
        t0 = integer("t_before")
        CTX.assume(z3.And(t0.e >= 1, t0.e < t.e))
        histo.change("counts1")
        o.run(t0)
    histo.change("counts")
    done = len(calls)
    o.run(t)
    new = len(calls) > done
    if periodic:
        due = tb(t % s == 0)
        if not new and histo.looked:
            raise Unsupported("recalculation depends on the contents of the histogram")
        CTX.check("recalculated-exactly-at-the-stride", due if new else z3.Not(due))
    else:
        CTX.check("not-recalculated-without-stride", z3.BoolVal(not new))
    CTX.check("newest-kept", z3.BoolVal(o.fes is calls[-1]))
    before = len(calls)
    histo.change("counts_end")
    o.final_run(t)
    if len(calls) == before and histo.looked:
        raise Unsupported("recalculation depends on the contents of the histogram")
    CTX.check("recalculated-at-the-end", z3.BoolVal(len(calls) == before + 1 and o.fes is calls[-1]))


@contract("C11", [FA + "FesAction.__init__", FA + "FesAction.run", FA + "FesAction.final_run", FA + "FesAction.write"],
          params=["no-file", "end", "periodic"])
def written_free_energy(kind):
    """what is written at a step or at the end is the newest free energy, under its own file name"""
    from engine.values import SymStr
    from .c09 import same_text
    s, t, ws = integer("stride"), integer("t"), integer("write_stride")
    CTX.assume(z3.And(s.e >= 1, t.e >= 1, ws.e >= 1))
    o, calls, kt, histo = fes_setup(False, s, None if kind == "no-file" else "fes", write_stride=ws if kind == "periodic" else None)
    o.run(t)
    log = [(f, x) for f in calls for x in f.written]
    if kind == "periodic":
        due = tb(t % ws == 0)
        CTX.check("written-exactly-when-due", due if log else z3.Not(due))
        CTX.check("once", z3.BoolVal(len(log) <= 1))
        for f, x in log:
            CTX.check("newest-written", z3.BoolVal(f is calls[-1]))
            same_text("file-of-the-step", x, SymStr.make(["fes_", (t, "")]))
    else:
        CTX.check("not-written-during-the-run", z3.BoolVal(not log))
    before = len(log)
    o.final_run(t)
    log = [(f, x) for f in calls for x in f.written]
    CTX.check("written-at-the-end-if-there-is-a-file", z3.BoolVal(len(log) == before + (kind != "no-file")))
    if kind != "no-file" and len(log) == before + 1:
        CTX.check("newest-written", z3.BoolVal(log[-1][0] is calls[-1]))
        same_text("file", log[-1][1], "fes")


@contract("C11", [FA + "FesAction.__init__", FA + "FesAction.run", FA + "FesAction.final_run", FA + "FesAction.plot"],
          params=["no-plot", "end", "periodic"])
def plotted_free_energy(kind):
    s, t, ps = integer("stride"), integer("t"), integer("plot_stride")
    CTX.assume(z3.And(s.e >= 1, t.e >= 1, ps.e >= 1))
    got = []

    def plot(data, axes, *a, **k):
        if a:
            raise Unsupported("positional arguments of plot_fes")
        got.append((data, k))
    ref = from_fn((integer("n"),), lambda i: wrap(z3.Function("ref", I, R)(tr(i[0]))))
    dom = (real("ylo"), real("yhi"))
    more = {} if kind == "no-plot" else dict(plot_filename="plot.png", plot_domain=dom, plot_title="T", ref=ref)
    if kind == "periodic":
        more["plot_stride"] = ps
    o, calls, kt, histo = fes_setup(False, s, None, plot, **more)
    o.run(t)
    if kind == "periodic":
        due = tb(t % ps == 0)
        CTX.check("plotted-exactly-when-due", due if got else z3.Not(due))
    else:
        CTX.check("not-plotted-during-the-run", z3.BoolVal(not got))
    newest = calls[-1]
    ok = lambda g, f: z3.BoolVal(g[0] is f.data and g[1].get("ref") is ref and g[1].get("plot_domain") is dom)
    for g in got:
        CTX.check("newest-with-the-reference", ok(g, newest))
    before = len(got)
    o.final_run(t)
    CTX.check("plotted-at-the-end-if-wanted", z3.BoolVal(len(got) == before + (kind != "no-plot")))
    for g in got[before:]:
        CTX.check("newest-with-the-reference", ok(g, calls[-1]))
        CTX.check("plot-file", z3.BoolVal(g[1].get("filename") == "plot.png" and g[1].get("title") == "T"))


@contract("C11", [DA + "DeltaFAction.__init__", DA + "check_mask_shapes", FA + "FesAction.__init__"], params=[False, True])
def difference_thermal_energy(given):
    o, calls, kt, histo = fes_setup(given, None)
    m = repo().get("bdld.actions.delta_f_action")
    n = o.fes.data.shape[0]
    mask = z3.Function("mask", I, I, B)
    masks = SList([from_fn((n,), (lambda k: lambda i: wrap(mask(k, tr(i[0]))))(k), "b") for k in range(3)])
    seen = []

    def calculate_delta_f(f, k, ms):
        seen.append(f)
        CTX.check("current-free-energy", z3.BoolVal(f is o.fes.data or isinstance(f, SymArray) and f.buf is o.fes.data.buf))
        CTX.check("thermal-energy-of-the-free-energy", eq(k, kt))
        CTX.check("states", z3.BoolVal(ms is masks))
        return SList([real("v0"), real("v1")])
    if not hasattr(m, "calculate_delta_f"):
        raise Unsupported("no function calculate_delta_f")
    m.calculate_delta_f = calculate_delta_f
    o.stride = 1
    a = m.DeltaFAction(o, masks, None)
    t = integer("t")
    CTX.assume(t >= 1)
    o.final_run(t)
    a.final_run(t)
    CTX.check("calculated", z3.BoolVal(len(seen) == 1))
    for j in range(2):
        CTX.check("value-of-its-state", eq(a.delta_f.at((j + 1,)), real(f"v{j}")))


@contract("C11", ["bdld/main.py:setup_delta_f", "bdld/inputparser.py:get_all_numbered_values", "bdld/inputparser.py:min_max_to_ranges",
                  "bdld/tools.py:pos_inside_ranges"], params=[(d, k) for d in (1, 2, 3) for k in (2, 3)] + [(1, 12)])
def state_masks(d, k):
    m = repo().get("bdld.main")
    h, n, lo, hi, i = histogram(d)
    opt = {}
    lohi = [[(real(f"min{s}_{a}"), real(f"max{s}_{a}")) for a in range(d)] for s in range(k)]
    for s in range(k):
        opt[f"state{s + 1}-min"] = SList([x[0] for x in lohi[s]])
        opt[f"state{s + 1}-max"] = SList([x[1] for x in lohi[s]])
    opt.update({"stride": None, "filename": None, "write-stride": None, "fmt": None})
    got = []
    if not hasattr(m, "DeltaFAction"):
        raise Unsupported("no DeltaFAction")
    m.DeltaFAction = lambda *a, **kw: got.append((a, kw))
    m.setup_delta_f(opt, Thing(histo_action=Thing(histo=h)))
    a, kw = got[0]
    masks = a[1] if len(a) > 1 else kw["masks"]
    CTX.check("one-mask-per-state", z3.BoolVal(len(masks) == k))
    for s in range(k):
        want = z3.And(*[z3.And(tb(mid(h, lo, hi, n, q, i[q]) >= lohi[s][q][0]), tb(mid(h, lo, hi, n, q, i[q]) <= lohi[s][q][1])) for q in range(d)])
        CTX.check(f"points-in-the-closed-box-of-state{s}", tb(flat_at(masks[s], i, n)) == want)
