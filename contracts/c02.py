"""C02 birth-death events: who initiates, who dies, how the partner is drawn."""
from .bdfix import *

TRUSTED = ["numpy Generator: random() in [0,1), integers(k) in 0..k-1 uniformly, shuffle permutes",
           "contract of calc_betas (C03): rates are a function of the current ensemble",
           "contract of perform_moves (C01): executes the given events"]
ASSUMPTIONS = [REALS, "loop invariant of do_birth_death: lists hold one entry per earlier event, counters and rates are current"]
FN = [BDC + f for f in ("do_birth_death", "random_other", "__init__")]


@contract("C02", FN, params=[(r, f) for r in (False, True) for f in (True, False)])
def initiation(recalc, rate):
    """arbitrary walker in an arbitrary state of the loop"""
    D = Decision(recalc, rate)
    ev = D.step(rate)
    i, n = D.i, D.n
    want = tb(D.accepts(i))
    if not recalc:
        want = z3.And(want, z3.Not(tb(D.killed_before)))
    CTX.check("initiates-exactly-if-accepted", want if ev is not None else z3.Not(want))
    if ev is not None:
        dup, kill = ev
        b = D.rate(i)
        CTX.check("positive-rate-is-killed", z3.Implies(tb(b > 0), eq(kill, i)))
        CTX.check("negative-rate-is-duplicated", z3.Implies(tb(b < 0), eq(dup, i)))
        CTX.check("walker-takes-part", z3.Or(eq(kill, i), eq(dup, i)))
        CTX.check("partner-is-another", z3.Not(eq(dup, kill)))
        for nm, x in (("duplicated", dup), ("killed", kill)):
            CTX.check(f"{nm}-walker-exists", z3.And(tr(x) >= 0, tr(x) < tr(n)))
    if recalc:
        j = CTX.fresh_int("j")
        CTX.assume(z3.And(j.e >= 0, j.e < tr(n)))
        for nm, v in D.final_names.items():
            if any(D.it.entry.get(nm) is m for m in D.marked):
                CTX.check("rates-of-the-current-ensemble", z3.BoolVal(isinstance(v, SymArray)) if not isinstance(v, SymArray) else
                          eq(v.at((j,)), wrap(D.B(D.ver, j.e))))


@contract("C02", FN, params=[False, True])
def nobody_skipped(recalc):
    """a walker that is not visited by the loop does not accept"""
    D = Decision(recalc)
    D.s_rate, D.rl_step = True, len(CTX.rng_log)
    j = CTX.fresh_int("j")
    CTX.assume(z3.And(j.e >= 0, j.e < tr(D.n)))
    CTX.check("all-walkers", eq(D.it.n, D.n))
    p = tb(D.it.pred(j))
    if z3.is_true(z3.simplify(p)):
        CTX.check("every-walker-is-visited", p)
    else:
        CTX.check("every-accepting-walker-is-visited", z3.Implies(tb(D.accepts(j)), p))


@contract("C02", [BDC + "random_other"])
def partner_draw():
    s = BDState(1)
    f = getattr(s.bd, "random_other", None)
    if f is None:
        raise Unsupported("no function random_other")
    n, i = integer("n"), integer("excl")
    CTX.assume(z3.And(n.e >= 2, i.e >= 0, i.e < n.e))

    def draw():
        r0 = len(CTX.rng_log)
        v = f(n, i)
        log = list(CTX.rng_log[r0:])
        if len(log) != 1 or log[0][1] != "integers" or log[0][2] is not None:
            raise Unsupported("partner drawn otherwise than by one integer")
        lo, hi = log[0][-1] if not isinstance(log[0][-1], str) else log[0][-2]
        return tr(v), log[0][3].e, hi - lo
    p1, a, m1 = draw()
    p2, b, m2 = draw()
    CTX.check("one-value-per-other-walker", z3.And(eq(m1, n - 1), eq(m2, n - 1)))
    CTX.check("partner-exists", z3.And(p1 >= 0, p1 < n.e))
    CTX.check("partner-is-another-walker", p1 != i.e)
    CTX.check("different-draws-different-partners", z3.Implies(p1 == p2, a == b))
