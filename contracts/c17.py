"""C17 configured actions run once per step in dependency order with their own options.

main.main is executed symbolically from an arbitrary valid input file (contract of
configparser, contracts/texts.py); the constructors of the actions are replaced by
recorders bound to the real signatures, so every option is followed from its text to
the parameter of its action."""
import inspect

from .common import *
from .texts import *
from .c16 import check_value

MA = "bdld/main.py:"
IP = "bdld/inputparser.py:"
TRUSTED = ["argparse / logging / sys.exit; configparser as in C16", "constructors and run methods of the actions (C01-C14) replaced by recorders in main"]
ASSUMPTIONS = [REALS, "lists of coordinates have one value per dimension", "two states and two positions (the names of the options are concrete)"]
SETUPS = [MA + f for f in ("main", "setup_potential", "setup_ld", "init_particles", "setup_birth_death", "setup_trajectories", "setup_histogram",
                           "setup_fes", "setup_delta_f", "setup_particle_distribution")]
CLASSES = {"bp": ("bdld.actions.bussi_parinello_ld", "BussiParinelloLD"), "od": ("bdld.actions.overdamped_ld", "OverdampedLD"),
           "birth-death": ("bdld.actions.birth_death", "BirthDeath"), "trajectories": ("bdld.actions.trajectory_action", "TrajectoryAction"),
           "histogram": ("bdld.actions.histogram_action", "HistogramAction"), "fes": ("bdld.actions.fes_action", "FesAction"),
           "delta-f": ("bdld.actions.delta_f_action", "DeltaFAction"),
           "particle-distribution": ("bdld.actions.particle_distribution", "ParticleDistributionAction"),
           "polynomial": ("bdld.potential.polynomial", "PolynomialPotential"),
           "mueller-brown": ("bdld.potential.mueller_brown", "MuellerBrownPotential")}
ORDER = ["ld", "birth-death", "trajectories", "histogram", "fes", "delta-f", "particle-distribution"]
LISTS = {"min", "max", "bins", "kernel-bandwidth", "pos1", "pos2", "state1-min", "state1-max", "state2-min", "state2-max"}


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


class World:
    """recorders in place of the classes used by main"""

    def __init__(self, d, r=None, build=()):
        """build: classes of which the real constructor is run"""
        self.r = r or repo()
        self.build = build
        self.m = self.r.get("bdld.main")
        self.d, self.dim = d, 2 if d == "mb" else d
        self.made = {}
        for key, (mod, cls) in CLASSES.items():
            mo = self.r.get(mod)
            real_ = getattr(mo, cls, None)
            if real_ is None:
                raise Unsupported(f"no class {cls}")
            rec = self.recorder(key, real_)
            setattr(mo, cls, rec)
            if hasattr(self.m, cls):
                setattr(self.m, cls, rec)
        po = self.r.get("bdld.potential.polynomial")
        if hasattr(po, "coefficients_from_file"):
            po.coefficients_from_file = lambda f, n: ("coefficients", f, n)

        class AP:
            def __init__(self, *a, **k):
                pass

            def add_argument(self, *a, **k):
                pass

            def parse_args(self, *a):
                return Obj(input="input", log_level="warning")
        self.m.argparse = Obj(ArgumentParser=AP)

    def recorder(self, key, real_):
        sig = inspect.signature(real_.__init__)
        w = self

        def make(*a, **k):
            b = sig.bind(None, *a, **k)
            b.apply_defaults()
            args = dict(b.arguments)
            args.pop(next(iter(sig.parameters)))
            o = Obj(args=args, key=key)
            w.made.setdefault(key, []).append(o)
            if key in w.build:
                o.real = real_(*a, **k)
                if key in ("bp", "od"):
                    o.real.__dict__["add_particle"] = lambda pos, mass=1.0, *a, **k: CTX.event("add", pos, mass)
                o.real.__dict__["run"] = o.real.__dict__["final_run"] = lambda step: None
                return o.real
            return w.dress(key, o)
        return make

    def dress(self, key, o):
        name = "ld" if key in ("bp", "od") else key
        if key in ("polynomial", "mueller-brown"):
            o.n_dim = self.dim
            o.boundary_condition = None
            o.ranges = SList([(real(f"lo{a}"), real(f"hi{a}")) for a in range(self.dim)])
            for a in range(self.dim):
                CTX.assume(real(f"lo{a}") < real(f"hi{a}"))
            o.evaluate = lambda pos: (real("some_energy"), asarray(SList([real(f"some_force{a}") for a in range(self.dim)])))
            o.energy, o.force = lambda pos: o.evaluate(pos)[0], lambda pos: o.evaluate(pos)[1]
            o.apply_boundary_condition = lambda pos, mom: None
            o.calculate_reference = lambda pts, mintozero=True: ("reference", pts)
            o.calculate_probability_density = lambda kt, ranges, n, *a: ("density", kt, ranges, n)
            return o
        o.run = lambda step: CTX.event("run", name, step)
        o.final_run = lambda step: CTX.event("final", name, step)
        if name != "ld":
            for at in ("stride", "write_stride"):
                setattr(o, at, integer(f"{name}.{at}"))
                CTX.assume(getattr(o, at) >= 1)
        if name == "ld":
            o.particles, o.pot = SList([]), o.args.get("pot")
            o.dt, o.kt = real("ld.dt"), real("ld.kt")
            CTX.assume(z3.And(o.dt.e > 0, o.kt.e > 0))
            o.add_particle = lambda pos, mass=1.0, *a, **k: CTX.event("add", pos, mass)
        if name == "trajectories":
            o.ld = o.args.get("ld")
        if name == "histogram":
            o.traj_action = o.args.get("traj_action")
            n = integer("points")
            CTX.assume(n >= 1)
            f = z3.Function("point", I, I, R)
            pts = from_fn((n, self.dim), lambda i: wrap(f(tr(i[0]), tr(i[1]))))
            o.pts = pts
            o.histo = Obj(points=lambda: pts, n_dim=self.dim)
        if name == "fes":
            o.histo_action = o.args.get("histo_action")
        return o


def lists(secs, dim):
    for s in secs.values():
        s = s[1] if isinstance(s, tuple) else s
        for k, t in s.entries.items():
            if k in LISTS:
                CTX.assume(NP_(t.t) == dim)
            if k == "fractions":
                CTX.assume(NP_(t.t) == 2)
    return secs


def go(w, secs):
    input_file(w.r.get("bdld.inputparser"), secs)
    CTX.events.clear()
    CTX.rngs.clear()
    try:
        w.m.main()
    except SystemExit as e:
        return e
    return None


def calls(kinds):
    """flattened calls: [(loops, condition, kind, action, step)]"""
    out = []

    def walk(evs, loops, cond):
        for e in evs:
            if e[0] in kinds:
                out.append((loops, cond) + tuple(e))
            elif e[0] == "loop":
                if len(e[3]) != 1 and any(has(x, kinds) for c, x in e[3]):
                    raise Unsupported("calls depend on a condition")
                for c, x in e[3]:
                    walk(x, loops + ((e[1], e[2]),), c)
    walk(CTX.events, (), z3.BoolVal(True))
    return out


def has(evs, kinds):
    return any(e[0] in kinds or e[0] == "loop" and any(has(x, kinds) for c, x in e[3]) for e in evs)


VARIANTS = [(1, "bussi-parinello", "fractions-pos"), (2, "overdamped", "random-pos"), ("mb", "bussi-parinello", "random-global")]


@contract("C17", SETUPS[:1], params=list(range(len(VARIANTS))))
def order(variant):
    """any combination of the optional sections, any number of steps"""
    w = World(VARIANTS[variant][0])
    secs = lists(valid_file(*VARIANTS[variant], optional=False), w.dim)
    here = {s: z3.Const(f"has.{s}", B) for s in ORDER[1:]}
    for a, b in (("histogram", "trajectories"), ("fes", "histogram"), ("delta-f", "fes")):
        CTX.assume(z3.Implies(here[a], here[b]))
    e = go(w, {s: (here[s], x) if s in here else x for s, x in secs.items()})
    CTX.check("runs", z3.BoolVal(e is None))
    if e is not None:
        return
    n = wrap(IV(secs["ld"].entries["n_steps"].t))
    cs = calls(("run", "final"))
    runs = [c for c in cs if c[2] == "run"]
    fin = [c for c in cs if c[2] == "final"]
    CTX.check("final-actions-after-the-last-step", z3.BoolVal(cs == runs + fin))
    names = [c[3] for c in runs]
    pos = [ORDER.index(x) for x in names]
    CTX.check("dynamics-first", z3.BoolVal(names[:1] == ["ld"]))
    CTX.check("dependency-order", z3.BoolVal(all(a < b for a, b in zip(pos, pos[1:]))))
    for s in ORDER[1:]:
        CTX.check(f"runs-exactly-if-configured.{s}", here[s] == z3.BoolVal(s in names))
    for loops, cond, _, name, step in runs:
        CTX.check("one-loop-over-the-steps", z3.BoolVal(len(loops) == 1 and loops[0][0] is runs[0][0][0][0]))
        k, m = loops[0]
        CTX.check("every-step", eq(m, n))
        hyp = z3.And(k >= 0, k < tr(n))
        CTX.check("unconditional", z3.Implies(hyp, cond))
        CTX.check("steps-count-from-one", z3.Implies(hyp, eq(step, SymInt(k) + 1)))
    CTX.check("same-order-at-the-end", z3.BoolVal([c[3] for c in fin] == names))
    for loops, cond, _, name, step in fin:
        CTX.check("once-at-the-end", z3.BoolVal(not loops))
        CTX.check("final-step", eq(step, n))


# parameter of the constructor <- option of the section
PARAMS = {
    "bp": [("dt", "ld", "timestep"), ("friction", "ld", "friction"), ("kt", "ld", "kt")],
    "od": [("dt", "ld", "timestep")],
    "birth-death": [("stride", "birth-death", "stride"), ("rate_fac", "birth-death", "exponential-factor"),
                    ("recalc_probs", "birth-death", "recalculate-probabilities"), ("stats_stride", "birth-death", "stats-stride"),
                    ("stats_filename", "birth-death", "stats-filename")],
    "trajectories": [("stride", "trajectories", "stride"), ("filename", "trajectories", "filename"), ("momentum", "trajectories", "momentum"),
                     ("write_stride", "trajectories", "write-stride"), ("write_fmt", "trajectories", "fmt")],
    "histogram": [("stride", "histogram", "stride"), ("reset", "histogram", "reset"), ("filename", "histogram", "filename"),
                  ("write_stride", "histogram", "write-stride"), ("write_fmt", "histogram", "fmt")],
    "fes": [("stride", "fes", "stride"), ("filename", "fes", "filename"), ("write_stride", "fes", "write-stride"), ("write_fmt", "fes", "fmt"),
            ("plot_stride", "fes", "plot-stride"), ("plot_filename", "fes", "plot-filename"), ("plot_domain", "fes", "plot-domain"),
            ("plot_title", "fes", "plot-title"), ("kt", "fes", "kt")],
    "delta-f": [("stride", "delta-f", "stride"), ("filename", "delta-f", "filename"), ("write_stride", "delta-f", "write-stride"), ("write_fmt", "delta-f", "fmt")],
    "particle-distribution": [("stride", "particle-distribution", "stride"), ("filename", "particle-distribution", "filename"),
                              ("write_stride", "particle-distribution", "write-stride"), ("write_fmt", "particle-distribution", "fmt")],
    "mueller-brown": [("scaling_factor", "potential", "scaling-factor")],
}


def param(o, name):
    if name not in o.args:
        raise Unsupported(f"no parameter {name}")
    return o.args[name]


def one(w, key):
    CTX.check(f"{key}.created-once", z3.BoolVal(len(w.made.get(key, [])) == 1))
    if not w.made.get(key):
        raise Unsupported(f"no {key}")
    return w.made[key][0]


def coordinate(t, kind, dim, a):
    """a-th coordinate of a text (scalar in one dimension)"""
    f = FV if kind == "float" else IV
    return wrap(f(t.t)) if dim == 1 else wrap(f(PIECE(t.t, a)))


@contract("C17", SETUPS, params=[(d, ld, full) for d in (1, 2, 3, "mb") for ld in ("bussi-parinello", "overdamped") for full in (True, False)])
def wiring(d, ld, full):
    """every option reaches its parameter"""
    w = World(d)
    var = (d, ld, "random-pos" if d == 2 else "random-global")
    secs = lists(valid_file(*var, optional=full), w.dim)
    dim = w.dim
    if full and d == 1:
        pass
    bc = Text("bc")
    CTX.assume(z3.Or(bc.t == word("reflective"), bc.t == word("periodic")))
    if full:
        secs["potential"].entries["boundary-condition"] = bc
    table_ = {(s, o): (k, dflt) for s, o, k, c, r, dflt in table(*var)}
    e = go(w, secs)
    CTX.check("runs", z3.BoolVal(e is None))
    if e is not None:
        return
    k = "bp" if ld == "bussi-parinello" else "od"
    CTX.check("type-of-the-dynamics", z3.BoolVal(set(w.made) & {"bp", "od"} == {k}))
    pk = "mueller-brown" if d == "mb" else "polynomial"
    CTX.check("type-of-the-potential", z3.BoolVal(set(w.made) & {"polynomial", "mueller-brown"} == {pk}))
    L, P = one(w, k), one(w, pk)
    # potential
    if d != "mb":
        rg = param(P, "ranges")
        CTX.check("ranges.number", eq(len(rg), dim))
        for a in range(dim):
            for q, o in enumerate(("min", "max")):
                CTX.check(f"ranges{a}.{o}", eq(rg[a][q], coordinate(secs["potential"].entries[o], "float", dim, a)))
        c = param(P, "coeffs")
        if d == 1:
            if full:
                check_value("coeffs", "floats", c, secs["potential"].entries["coeffs"].t)
            else:
                CTX.check("coeffs", z3.BoolVal(c is None))
        else:
            CTX.check("coefficients-of-the-file", z3.BoolVal(isinstance(c, tuple) and c[0] == "coefficients" and c[1] is secs["potential"].entries["coeffs-file"]))
            CTX.check("coefficients-dimension", eq(c[2], dim))
    BC = w.r.get("bdld.potential.potential").BoundaryCondition
    if not full:
        CTX.check("no-boundary-condition", z3.BoolVal(P.boundary_condition is None))
    else:
        want = BC.reflective if CTX.branch(bc.t == word("reflective")) else BC.periodic
        CTX.check("boundary-condition", z3.BoolVal(P.boundary_condition is want))
    CTX.check("potential-of-the-dynamics", z3.BoolVal(param(L, "pot") is P))
    objs = {key: one(w, key) for key in ORDER[1:]}
    objs[k] = L
    if d == "mb":
        objs[pk] = P
    for key, o in objs.items():
        for p, sec, opt in PARAMS[key]:
            kind, dflt = table_[sec, opt]
            t = secs[sec].entries.get(opt)
            v = param(o, p)
            if t is None:
                if dflt is None or dflt is False:
                    CTX.check(f"{sec}.{opt}.default", z3.BoolVal(v is dflt))
                else:
                    CTX.check(f"{sec}.{opt}.default", eq(v, dflt))
            else:
                check_value(f"{sec}.{opt}", kind, v, t.t)
    # connections
    bd, ta, ha, fa, da, pa = [objs[x] for x in ORDER[1:]]
    for lab, got, want in (("birth-death.particles", param(bd, "particles"), L.particles), ("trajectories.ld", param(ta, "ld"), L),
                           ("histogram.trajectories", param(ha, "traj_action"), ta), ("fes.histogram", param(fa, "histo_action"), ha),
                           ("delta-f.fes", param(da, "fes_action"), fa), ("distribution.particles", param(pa, "particles"), L.particles)):
        CTX.check(lab, z3.BoolVal(got is want))
    CTX.check("birth-death.timestep", eq(param(bd, "md_dt"), L.dt))
    CTX.check("birth-death.kt", eq(param(bd, "kt"), L.kt))
    AV = w.r.get("bdld.actions.birth_death").ApproxVariant
    CTX.check("birth-death.default-variant", z3.BoolVal(param(bd, "approx_variant") in (None, AV.orig)))
    bw = param(bd, "bw")
    CTX.check("bandwidth.number", eq(len(bw), dim))
    for a in range(dim):
        CTX.check(f"bandwidth{a}", eq(bw[a], coordinate(secs["birth-death"].entries["kernel-bandwidth"], "float", dim, a)))
        CTX.check(f"bins{a}", eq(param(ha, "n_bins")[a], coordinate(secs["histogram"].entries["bins"], "int", dim, a)))
        for q, o in enumerate(("min", "max")):
            CTX.check(f"histogram-range{a}.{o}", eq(param(ha, "ranges")[a][q], coordinate(secs["histogram"].entries[o], "float", dim, a)))
    for x in (param(ha, "n_bins"), param(ha, "ranges")):
        CTX.check("histogram-dimension", eq(len(x), dim))
    ref = param(fa, "ref")
    CTX.check("reference-of-the-histogram-points", z3.BoolVal(isinstance(ref, tuple) and ref[0] == "reference" and ref[1] is ha.pts))
    st, mk_ = param(pa, "states"), param(da, "masks")
    CTX.check("number-of-states", z3.BoolVal(len(st) == 2 and len(mk_) == 2))
    i = integer("i")
    CTX.assume(z3.And(i.e >= 0, i.e < tr(ha.pts.shape[0])))
    for s in range(2):
        CTX.check("dimension-of-the-states", eq(len(st[s]), dim))
        inside = []
        for a in range(dim):
            for q, o in enumerate(("min", "max")):
                at = lambda sec: wrap(FV(PIECE(secs[sec].entries[f"state{s + 1}-{o}"].t, a)))
                CTX.check(f"state{s + 1}-{o}{a}", eq(st[s][a][q], at("particle-distribution")))
                x = ha.pts.at((i, a))
                inside.append(tb(x >= at("delta-f")) if q == 0 else tb(x <= at("delta-f")))
        CTX.check(f"mask-of-state{s + 1}", tb(mk_[s].at((i,))) == z3.And(*inside))


BD_ = "bdld/actions/birth_death.py:"
AC = "bdld/actions/"
BDC = AC + "birth_death.py:BirthDeath."


@contract("C17", [BDC + "__init__", BDC + "run"], params=[(st, f) for st in (False, True) for f in (False, True)])
def birth_death_schedule(stats, rate):
    """evaluated exactly at the multiples of the stride with the time between evaluations"""
    from .bdfix import BDState
    ss = integer("stats_stride")
    CTX.assume(ss >= 1)
    s = BDState(1, None, stats_stride=ss if stats else None, rate=rate)
    bd = s.bd
    CTX.check("time-between-evaluations", eq(bd.dt, s.dt * s.stride))
    CTX.check("factor", eq(bd.rate_fac, s.rf if rate else 1.0))
    CTX.check("thermal-energy", eq(bd.kt, s.kt))
    CTX.check("original-approximation-by-default", z3.BoolVal(bd.approx_variant is s.mod.ApproxVariant.orig))
    done = []
    if not hasattr(bd, "do_birth_death"):
        raise Unsupported("no method do_birth_death")
    bd.__dict__["do_birth_death"] = lambda *a: done.append(a)
    bd.stats.__dict__["print"] = lambda *a, **k: CTX.event("stats", a)
    t = integer("t")
    CTX.assume(t >= 1)
    bd.run(t)
    due = tb(t % s.stride == 0)
    CTX.check("evaluated-exactly-at-the-stride", due if done else z3.Not(due))
    CTX.check("at-most-once-per-step", z3.BoolVal(len(done) <= 1))
    said = [e for e in CTX.events if e[0] == "stats"]
    if stats:
        sdue = tb(t % ss == 0)
        CTX.check("statistics-exactly-at-their-stride", sdue if said else z3.Not(sdue))
    else:
        CTX.check("no-statistics-without-stride", z3.BoolVal(not said))


FMT = "%14.9f"


@contract("C17", [AC + "trajectory_action.py:TrajectoryAction.__init__", AC + "histogram_action.py:HistogramAction.__init__",
                  AC + "fes_action.py:FesAction.__init__", AC + "delta_f_action.py:DeltaFAction.__init__",
                  AC + "particle_distribution.py:ParticleDistributionAction.__init__"], params=[(d, g) for d in (1, 2) for g in (False, True)])
def defaults(d, given):
    """options that are None get the documented default, others are kept"""
    r = repo()
    n = integer("N")
    CTX.assume(n >= 1)
    pot = Obj(n_dim=d, get_fields=lambda: SList(["x", "y"][:d]), ranges=SList([(-1.0, 1.0)] * d))
    w = W_()
    w.n, w.ld = n, Obj(particles=ObjList.make(n, W_, {"pos": d, "mom": d}), pot=pot, dt=real("dt"), kt=real("kt"))
    CTX.assume(z3.And(w.ld.dt.e > 0, w.ld.kt.e > 0))
    q = {x: integer(x) for x in ("ts", "tw", "hs", "hw", "fs", "ds", "ps")}
    for x in q.values():
        CTX.assume(x >= 1)
    g = lambda x: x if given else None
    ta = r.get("bdld.actions.trajectory_action").TrajectoryAction(w.ld, g(q["ts"]), "file", None, g(q["tw"]), g("%f"))
    CTX.check("trajectories.stride", eq(ta.stride, q["ts"] if given else 1))
    CTX.check("trajectories.write-stride", eq(ta.write_stride, q["tw"] if given else 100))
    CTX.check("trajectories.fmt", z3.BoolVal(ta.write_fmt == ("%f" if given else FMT)))
    CTX.check("trajectories.momentum", z3.BoolVal(not ta.store_momentum))
    ha = r.get("bdld.actions.histogram_action").HistogramAction(ta, SList([5] * d), SList([(-1.0, 1.0)] * d), g(q["hs"]), None, "file",
                                                               g(q["hw"]), g("%f"))
    CTX.check("histogram.stride", eq(ha.stride, q["hs"] if given else 1))
    CTX.check("histogram.fmt", z3.BoolVal(ha.write_fmt == ("%f" if given else FMT)))
    if given:
        CTX.check("histogram.write-stride", eq(ha.write_stride, q["hw"]))
    else:
        CTX.check("histogram.write-stride", z3.BoolVal(not ha.write_stride))
    CTX.check("histogram.reset", z3.BoolVal(not ha.reset))
    mf = r.get("bdld.actions.fes_action")
    mf.calculate_fes = lambda *a, **k: Obj(data=from_fn((5,) * d, lambda i: 0.0), n_dim=d)
    fa = mf.FesAction(ha, g(q["fs"]), "file", None, g("%f"), kt=g(real("kt2")) if not given else None)
    CTX.check("fes.fmt", z3.BoolVal(fa.write_fmt == ("%f" if given else FMT)))
    CTX.check("fes.kt-of-the-dynamics", eq(fa.kt, w.ld.kt))
    for x in ("write_stride", "plot_stride") + (() if given else ("stride",)):
        CTX.check(f"fes.{x}", z3.BoolVal(not getattr(fa, x)))
    if given:
        CTX.check("fes.stride", eq(fa.stride, q["fs"]))
    masks = SList([from_fn((5,) * d, lambda i: True, "b").reshape(-1) for _ in range(2)])
    da = r.get("bdld.actions.delta_f_action").DeltaFAction(fa, masks, g(q["ds"]), "file", None, g("%f"))
    pa = r.get("bdld.actions.particle_distribution").ParticleDistributionAction(w.ld.particles, SList([SList([(-1.0, 0.0)] * d)] * 2), g(q["ps"]), "file", None, g("%f"))
    for lab, a, s in (("delta-f", da, q["ds"]), ("particle-distribution", pa, q["ps"])):
        CTX.check(f"{lab}.fmt", z3.BoolVal(a.write_fmt == ("%f" if given else FMT)))
        if given:
            CTX.check(f"{lab}.stride", eq(a.stride, s))
            CTX.check(f"{lab}.write-stride", eq(a.write_stride, 100 * s))
        else:
            CTX.check(f"{lab}.no-stride", z3.BoolVal(not a.stride))


class W_:
    pass


VARIANT_WORDS = {"original": "orig", "orig": "orig", "additive": "add", "add": "add", "multiplicative": "mult", "mult": "mult"}


@contract("C17", [MA + "setup_birth_death", MA + "bd_prob_density", BD_ + "ApproxVariant.from_str"],
          params=[(a, c) for a in (False, True) for c in (False, True)])
def approximation(approx, correction):
    """approximation-variant has precedence over correction-variant; other words are rejected"""
    w = World(1)
    secs = lists(valid_file(1, "bussi-parinello", "random-global", optional=False, absent=ORDER[2:]), 1)
    m = w.r.get("bdld.actions.birth_death").ApproxVariant
    ts = {}
    for key, on in (("approximation-variant", approx), ("correction-variant", correction)):
        if on:
            ts[key] = secs["birth-death"].entries[key] = Text(key)
            CTX.assume(ts[key].t != word(""))
    e = go(w, secs)
    known = {k: z3.Or(*[t.t == word(x) for x in VARIANT_WORDS]) for k, t in ts.items()}
    ok = z3.And(*known.values()) if known else z3.BoolVal(True)
    CTX.check("runs-exactly-with-documented-words", ok if e is None else z3.Not(ok))
    if e is not None:
        return
    bd = one(w, "birth-death")
    v = param(bd, "approx_variant")
    t = ts.get("approximation-variant") or ts.get("correction-variant")
    if t is None:
        CTX.check("original-by-default", z3.BoolVal(v in (None, m.orig)))
        v = m.orig
    else:
        CTX.check("variant-of-the-word", z3.Or(*[t.t == word(x) for x, y in VARIANT_WORDS.items() if getattr(m, y) is v]))
    q = param(bd, "eq_density")
    if v in (m.add, m.mult):
        P = one(w, "polynomial")
        CTX.check("equilibrium-density", z3.BoolVal(isinstance(q, tuple) and q[0] == "density" and q[2] is P.ranges))
        CTX.check("density-at-the-thermal-energy-of-the-dynamics", eq(q[1], one(w, "bp").kt))


@contract("C17", ["bdld/main.py:setup_particle_distribution", "bdld/inputparser.py:get_all_numbered_values", "bdld/inputparser.py:min_max_to_ranges"],
          params=[(1, 12), (2, 12)])
def many_states(d, k):
    from .c14 import configured
    configured("C17", "setup_particle_distribution", "ParticleDistributionAction", 0, d, k)
