"""C04 birth-death statistics."""
from .bdfix import *

TRUSTED = ["numpy Generator: shuffle permutes; np.savetxt writes the given row",
           "contracts of calc_betas (C03) and perform_moves (C01)"]
ASSUMPTIONS = ["loop invariant of do_birth_death: counters arbitrary, one list entry per earlier event"]
FN = [BDC + f for f in ("do_birth_death", "random_other", "__init__")]


@contract("C04", FN, params=[False, True])
def successes(recalc):
    D = Decision(recalc)
    for c in ("dup_count", "kill_count"):
        CTX.check_eq(f"no-{c}-before-the-first-event", D.at_entry[c], D.c0[c])
    ev = D.step()
    b = D.rate(D.i)
    if ev is None:
        CTX.check("no-event-no-death", eq(D.delta("kill_count"), 0))
        CTX.check("no-event-no-birth", eq(D.delta("dup_count"), 0))
    else:
        CTX.check("one-success-per-event", eq(D.delta("kill_count") + D.delta("dup_count"), 1))
        CTX.check("death-exactly-if-positive", eq(D.delta("kill_count"), ite(b > 0, 1, 0)))
        CTX.check("birth-otherwise", eq(D.delta("dup_count"), ite(b > 0, 0, 1)))


@contract("C04", FN)
def attempts_bulk():
    D = Decision(False)
    n = D.n
    B0 = lambda i: wrap(D.B(z3.IntVal(0), tr(i)))
    pos = A.agg_sum(n, lambda i: A.mask_int(B0(i) > 0))
    neg = A.agg_sum(n, lambda i: A.mask_int(B0(i) < 0))
    kd = D.at_entry["kill_attempts"] - D.c0["kill_attempts"]
    dd = D.at_entry["dup_attempts"] - D.c0["dup_attempts"]
    f = {c: D.c1[c] for c in ("kill_attempts", "dup_attempts")}
    kd, dd = f["kill_attempts"] - D.c0["kill_attempts"], f["dup_attempts"] - D.c0["dup_attempts"]
    CTX.check_eq("death-attempt-per-positive-rate", kd, pos)
    if CTX.prove(eq(dd, neg))[0] != "proved":  # a vanishing rate may count as either
        CTX.check_eq("birth-attempt-per-negative-rate", dd, n - pos)
    else:
        CTX.check_eq("birth-attempt-per-negative-rate", dd, neg)
    D.step()
    for c in f:
        CTX.check(f"{c}-only-once", eq(D.delta(c), 0))


@contract("C04", FN)
def attempts_recalc():
    D = Decision(True)
    for c in ("kill_attempts", "dup_attempts"):
        CTX.check_eq(f"no-{c}-before-evaluation", D.at_entry[c], D.c0[c])
    D.step()
    b = D.rate(D.i)
    CTX.check("death-attempt-if-positive", z3.Implies(tb(b > 0), z3.And(eq(D.delta("kill_attempts"), 1), eq(D.delta("dup_attempts"), 0))))
    CTX.check("birth-attempt-if-negative", z3.Implies(tb(b < 0), z3.And(eq(D.delta("kill_attempts"), 0), eq(D.delta("dup_attempts"), 1))))


@contract("C04", [BDC + "__init__", BDC + "Stats.__init__", BDC + "Stats.print", BDC + "Stats.reset", BDC + "run", BDC + "final_run"],
          params=["run", "final", "reset"])
def statistics_row(kind):
    st = None
    if kind != "final":
        st = integer("stats_stride")
        CTX.assume(st >= 1)
    CTX.events.clear()
    head = []

    def prepare(m):
        f = m.initialize_file
        m.initialize_file = lambda *a, **k: (head.append((a, k)), f(*a, **k))[1]
    s = BDState(1, stats_stride=st, filename="stats", prepare=prepare)
    for c in COUNTERS:
        CTX.check(f"starts-at-zero-{c}", eq(getattr(s.bd.stats, c), 0))
    c = {x: integer(x) for x in COUNTERS}
    for x in COUNTERS:
        s.bd.stats.__dict__[x] = c[x]
    closed(s.bd, ("do_birth_death", "stats"))
    closed(s.bd.stats, COUNTERS)
    evaluated = []

    def do_birth_death():
        """changes the counters (contracts successes and attempts)"""
        evaluated.append(1)
        for x in COUNTERS:
            c[x] = integer(f"{x}_after{len(evaluated)}")
            s.bd.stats.__dict__[x] = c[x]
        return SList([])
    s.bd.__dict__["do_birth_death"] = do_birth_death
    t = integer("t")
    CTX.assume(t >= 1)
    if kind == "reset":
        s.bd.stats.reset()
        for x in COUNTERS:
            CTX.check(f"reset-{x}", eq(getattr(s.bd.stats, x), 0))
        return
    if kind == "run":
        s.bd.run(t)
        due = tb(t % st == 0)
    else:
        s.bd.run(t)
        CTX.check("nothing-before-the-end", z3.BoolVal(not [e for e in CTX.events if e[0] == "savetxt"]))
        s.bd.final_run(t)
        due = z3.BoolVal(True)
    ev = [e for e in CTX.events if e[0] == "savetxt"]
    CTX.check("row-exactly-when-due", due if ev else z3.Not(due))
    CTX.check("evaluated-exactly-at-its-stride", tb(t % s.stride == 0) if evaluated else z3.Not(tb(t % s.stride == 0)))
    CTX.check("one-evaluation", z3.BoolVal(len(evaluated) <= 1))
    for x in COUNTERS:
        CTX.check(f"counters-kept-{x}", eq(getattr(s.bd.stats, x), c[x]))
    CTX.check("one-header", z3.BoolVal(len(head) == 1))
    if len(head) == 1:
        a, k = head[0]
        fields = list(k.get("fields", a[1] if len(a) > 1 else None) or [])
        CTX.check("header-fields", z3.BoolVal(fields == ["timestep", "dup_succ", "dup_attempts", "kill_succ", "kill_attempts"]))
    if ev:
        CTX.check("one-row", z3.BoolVal(len(ev) == 1 and len(ev[0][3].shape) == 2 and tuple(ev[0][3].shape) == (1, 5)))
        CTX.check("appended-to-the-file", z3.BoolVal(ev[0][1] == "stats" and ev[0][2].startswith("a")))
        for j, w in enumerate([t, c["dup_count"], c["dup_attempts"], c["kill_count"], c["kill_attempts"]]):
            CTX.check(f"column{j}", eq(ev[0][3].at((0, j)), w))
