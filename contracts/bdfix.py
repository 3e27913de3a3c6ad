"""Arbitrary states of the birth-death action."""
from .common import *
from .ldfix import real_walkers

BD = "bdld/actions/birth_death.py:"
BDC = BD + "BirthDeath."


class W:
    """a walker of an arbitrary class (whatever attributes it has)"""


def particles(d, n=None, nmin=2, extra=("mass", "energy", "c2"), of=None):
    if of:  # exactly the walkers of that class
        cls, proto = of
        n = integer("N")
        CTX.assume(n >= nmin)
        return ObjList.make(n, cls, proto, tag=False), n
    if n is None:
        n = integer("N")
        CTX.assume(n >= nmin)
    proto = {"pos": d, "mom": d, "forces": d}
    for e in extra:
        proto[e] = None
    return ObjList.make(n, W, proto), n


def bandwidths(d):
    bw = [real(f"bw{a}") for a in range(d)]
    for b in bw:
        CTX.assume(b > 0)
    return bw


class BDState:
    def __init__(self, d=1, variant=None, recalc=False, n=None, nmin=2, eq_density=None, bw=None, repo_=None, stats_stride=None, filename=None,
                 seed=True, rate=True, prepare=None, kind=None):
        self.repo = repo_ or repo()
        self.mod = self.repo.get("bdld.actions.birth_death")
        if prepare:
            prepare(self.mod)
        self.d = d
        self.parts, self.n = particles(d, n, nmin, of=real_walkers(self.repo, kind, d) if kind else None)
        self.dt, self.kt, self.rf = real("dt"), real("kt"), real("rate_fac")
        self.stride = integer("stride")
        CTX.assume(z3.And(tb(self.dt > 0), tb(self.kt > 0), tb(self.rf > 0), tb(self.stride >= 1)))
        self.bw = bw if bw is not None else bandwidths(d)
        v = {None: None, "orig": self.mod.ApproxVariant.orig, "add": self.mod.ApproxVariant.add, "mult": self.mod.ApproxVariant.mult}[variant]
        s = integer("seed")
        CTX.assume(s >= 0)
        self.bd = self.mod.BirthDeath(self.parts, self.dt, self.stride, SList(self.bw), self.kt, self.rf if rate else None, recalc, v,
                                      eq_density, s if seed else None, stats_stride, filename)
        CTX.events.clear()


def kernel(x, bw):
    """normalised Gaussian product kernel at the vector x"""
    r = 1.0
    for a, b in zip(x, bw):
        r = r * (1 / (core.sym_sqrt(2 * SymReal(core.PI)) * b) * core.sym_exp(-(a * a) / (2 * b * b)))
    return r


def density(x, n, i, d, bw):
    """average kernel value at walker i, itself included"""
    return A.agg_sum(n, lambda j: kernel([x(i, a) - x(j, a) for a in range(d)], bw)) / n


COUNTERS = ("dup_count", "dup_attempts", "kill_count", "kill_attempts")


class Decision:
    """BirthDeath.do_birth_death for any number of walkers and any rates, draws and order.

    calc_betas is represented by its contract (the rates are a function of the current
    state of the ensemble), perform_moves by its contract (executes the events, so the
    ensemble is in a new state).  The loop over the walkers is replaced by its invariant
    (contracts/inv.py); `step` then runs the loop body for an arbitrary walker."""

    def __init__(self, recalc, rate=True):
        from .inv import Iteration
        self.recalc = recalc
        self.s = s = BDState(1, None, recalc, rate=rate)
        self.bd, self.n = s.bd, s.n
        self.B = z3.Function("beta", I, I, R)
        self.ver = z3.IntVal(0)
        self.moves, self.rate_calls = [], 0
        self.bd.__dict__["calc_betas"] = self.calc_betas
        self.bd.__dict__["perform_moves"] = self.perform_moves
        self.c0 = {}
        for c in COUNTERS:
            if not hasattr(self.bd.stats, c):
                raise Unsupported(f"no counter {c}")
            self.c0[c] = integer(c)
            CTX.assume(self.c0[c] >= 0)
            self.bd.stats.__dict__[c] = self.c0[c]
        closed(self.bd, ("calc_betas", "perform_moves", "stats"))
        closed(self.bd.stats, COUNTERS)
        self.fields0 = s.parts.snapshot()
        self.it = Iteration(self.carried)
        self.rl0 = len(CTX.rng_log)
        CTX.ghost["loop_handlers"] = [self.handler]
        self.entry_ver = None
        self.ret = self.bd.do_birth_death()
        if self.it.loop is None:
            raise Unsupported("no loop over the walkers recognised")
        if not self.rate_calls:
            raise Unsupported("calc_betas is not used")
        self.c1 = {c: self.bd.stats.__dict__[c] for c in COUNTERS}
        self.post_moves, self.moves = self.moves, []
        self.prepare_events()

    def handler(self, site, it, body, get, set_):
        from .inv import index_set
        if index_set(it) is None:
            return NotImplemented
        self.at_entry = {c: self.bd.stats.__dict__[c] for c in COUNTERS}
        if self.moves:
            raise Unsupported("moves before the loop over the walkers")
        if self.recalc:
            self.marked = [v for v in get().values() if self.is_current(v)]
            self.ver = tr(CTX.fresh_int("state"))
        r = self.it(site, it, body, get, set_)
        self.moves = []
        self.loop_ver = self.ver
        return r

    # contracts of the callees
    def rates(self, ver):
        n = self.n
        r = from_fn((n,), lambda i: wrap(self.B(ver, tr(i[0]))))
        r.betas = (ver, r.buf, r.buf.nwrites)
        return r

    def calc_betas(self):
        self.rate_calls += 1
        return self.rates(self.ver)

    def is_current(self, v):
        b = getattr(v, "betas", None)
        return isinstance(v, SymArray) and b is not None and b[0].eq(self.ver) and v.buf is b[1] and v.buf.nwrites == b[2]

    def carried(self, v):
        if any(v is m for m in getattr(self, "marked", ())):
            return self.rates(self.ver)
        return None

    def perform_moves(self, event_list):
        n = event_list.sym_len() if hasattr(event_list, "sym_len") else len(event_list)
        if isinstance(n, int) and n == 0:
            return
        get = event_list.frozen_get() if hasattr(event_list, "frozen_get") else list(event_list).__getitem__
        self.moves.append((n, get))
        self.ver = tr(CTX.fresh_int("state"))

    # --------------------------------------------------------------------------
    def pair(self, v):
        if isinstance(v, (tuple, list)) and len(v) == 2:
            return tuple(v)
        raise Unsupported("event that is no pair")

    def prepare_events(self):
        """which entries of the loop's lists make up the reported events"""
        ev = self.ret
        if not isinstance(ev, SList):
            raise Unsupported("the event list is no list")
        q = CTX.fresh_int("q")
        CTX.assume(z3.And(q.e >= 0, q.e < self.it.m.e))
        CTX.check("reported.one-entry-per-event", eq(ev.sym_len(), self.it.m))
        e = self.pair(ev.sym_get(q))
        comps = []
        for k, (l, f) in self.it.lists.items():
            v = f(q)
            if isinstance(v, tuple):
                comps += [((k, j), tr(x)) for j, x in enumerate(v)]
            else:
                comps.append(((k, None), tr(v)))
        self.src = []
        for x in e:
            hit = [c for c, t in comps if t.eq(z3.simplify(tr(x)))]
            if not hit:
                raise Unsupported("reported event is not an entry of the lists of the loop")
            self.src.append(hit[0])
        grows = self.it.grows or {}
        for k, g in grows.items():  # (a list of events that grows differently is refuted by `step`)
            if g != grows[self.src[0][0]] and k not in [c[0] for c in self.src]:
                raise Unsupported("collections of the loop that grow differently")
        self.reported = ev.frozen_get()
        if self.post_moves:
            CTX.check("executed.once", z3.BoolVal(len(self.post_moves) == 1))
            n, get = self.post_moves[0]
            CTX.check("executed.all-reported-events", eq(n, self.it.m))
            p = self.pair(get(q))
            CTX.check("executed.event-as-reported", z3.And(eq(p[0], e[0]), eq(p[1], e[1])))
        CTX.check("starts-without-events", z3.BoolVal(self.it.initially_empty()))

    def killed(self, i):
        """walker i was killed by an earlier event of this step"""
        return A.quant_any((self.it.m,), lambda q: wrap(eq(self.pair(self.reported(q[0]))[1], i)))

    def draw_of(self, i):
        arr = [x for x in CTX.rng_log[self.rl0:] if x[1] == "random" and x[2] is not None]
        one = [x for x in CTX.rng_log[self.rl_step:] if x[1] == "random" and x[2] is None]
        if len(arr) == 1 and not one and len(arr[0][2]) == 1 and A.same(arr[0][2][0], self.n):
            return arr[0][3].at((i,))
        if len(one) == 1 and not arr:
            return one[0][3]
        raise Unsupported("uniform draws of the walkers")

    def rate(self, i):
        return wrap(self.B(self.loop_ver if self.recalc else z3.IntVal(0), tr(i)))

    def accepts(self, i):
        b = self.rate(i)
        t = core.ite(b > 0, b, -b) * self.s.dt * self.s.stride
        if self.s_rate:
            t = t * self.s.rf
        return self.draw_of(i) <= 1 - core.sym_exp(-t)

    def step(self, rate=True):
        """the event (dup, kill) initiated by the arbitrary walker, or None"""
        self.s_rate = rate
        self.i = self.it.i
        self.rl_step = len(CTX.rng_log)
        self.killed_before = self.killed(self.i) if not self.recalc else False
        self.ver = self.loop_ver
        self.moves = []
        names = self.it.step()
        app = self.it.appended()
        n = {len(app[k]) for k, _ in self.src}
        CTX.check("at-most-one-event-per-walker", z3.BoolVal(len(n) == 1 and max(n) <= 1))
        if len(n) != 1 or max(n) > 1:
            raise core.PathEnd()
        self.final_names = names
        if n.pop() == 0:
            CTX.check("executed.only-reported-events", z3.BoolVal(not self.moves))
            return None
        ev = tuple(app[k][0] if j is None else app[k][0][j] for k, j in self.src)
        if not self.post_moves:
            ok = len(self.moves) == 1 and self.moves[0][0] == 1
            CTX.check("executed.exactly-the-event", z3.BoolVal(bool(ok)))
            if ok:
                p = self.pair(self.moves[0][1](0))
                CTX.check("executed.event-as-reported", z3.And(eq(p[0], ev[0]), eq(p[1], ev[1])))
        else:
            CTX.check("executed.once", z3.BoolVal(not self.moves))
        return ev

    def delta(self, c):
        """growth of a counter by the step, counting what the code after the loop adds"""
        return wrap(z3.simplify(self.it.subst(self.c1[c]) - tr(self.c1[c])))
