"""Arbitrary states of the two Langevin integrators."""
from .common import *

BP = "bdld/actions/bussi_parinello_ld.py:"
OD = "bdld/actions/overdamped_ld.py:"


KNOWN = ("pos", "mom", "mass", "energy", "forces", "c2")


def attributes(sample):
    """the attributes of a walker: name -> None (number) | number of components"""
    proto = {}
    for f, v in sample.__dict__.items():
        if f == "_frozen_obj":
            continue
        if isinstance(v, SymArray):
            proto[f] = v.shape[0]
        elif isinstance(v, (int, float, SymNum, core.Fraction)):
            proto[f] = None
        else:
            raise Unsupported(f"walker attribute {f} of type {type(v).__name__}")
    return proto


def real_walkers(repo_, kind, d):
    """class and attributes of the walkers which the real add_particle creates"""
    pot = AbstractPotential(d, True)
    if kind == "bp":
        ld = repo_.get("bdld.actions.bussi_parinello_ld").BussiParinelloLD(pot, 0.5, 1.0, 1.0, 1)
    else:
        ld = repo_.get("bdld.actions.overdamped_ld").OverdampedLD(pot, 0.5, 1)
    ld.add_particle(SList([real(f"tmp{i}") for i in range(d)]), 1.0)
    return type(ld.particles[-1]), attributes(ld.particles[-1])


class LD:
    """kind: 'bp' | 'od'; a freshly constructed integrator with N arbitrary walkers"""

    def __init__(self, kind, d, boundary=True, n=None, invariant=True, repo_=None):
        self.kind, self.d = kind, d
        self.repo = repo_ or repo()
        self.pot = AbstractPotential(d, boundary)
        self.dt, self.kt, self.fr, self.m0 = real("dt"), real("kt"), real("friction"), real("mass0")
        CTX.assume(z3.And(tb(self.dt > 0), tb(self.kt > 0), tb(self.fr >= 0), tb(self.m0 > 0)))
        if kind == "bp":
            self.mod = self.repo.get("bdld.actions.bussi_parinello_ld")
            self.cls = self.mod.BussiParinelloLD
            self.ld = self.cls(self.pot, self.dt, self.fr, self.kt, integer("seed"))
        else:
            self.mod = self.repo.get("bdld.actions.overdamped_ld")
            self.cls = self.mod.OverdampedLD
            self.ld = self.cls(self.pot, self.dt, integer("seed"))
            self.kt = 1.0
        # attributes of a walker: whatever the real add_particle creates
        self.tmp = [real(f"tmp{i}") for i in range(d)]
        self.ld.add_particle(SList(self.tmp), self.m0)
        self.sample = self.ld.particles[-1]
        proto = attributes(self.sample)
        self.pcls = type(self.sample)
        self.proto = proto
        if n is None:
            n = integer("N")
            CTX.assume(n >= 1)
        self.n = n
        self.parts = ObjList.make(n, self.pcls, proto)
        CTX.events.clear()
        self.ld.__dict__["particles"] = self.parts
        self.extra = [f for f in proto if f not in KNOWN]
        if invariant:
            self.assume_invariant()
        earlier(self.ld, self.prior)

    def prior(self):
        """a step of other walkers at the same places of the list"""
        other_walkers(self.parts, lambda: self.ld.run(integer("step")))

    def inferred(self, f, i, mass, pos):
        """value of an attribute the contract does not know, as add_particle sets it"""
        sub = [(self.m0.e, trr(mass))] + [(t.e, trr(x)) for t, x in zip(self.tmp, pos)]

        def at(v):
            return wrap(z3.substitute(trr(v), *sub)) if isinstance(v, SymNum) else v
        v = self.sample.__dict__[f]
        return at(v) if self.proto[f] is None else [at(v.at((a,))) for a in range(self.proto[f])]

    def check_inferred(self, v):
        """does the walker v (after a step) still satisfy what was assumed on unknown attributes?"""
        for f in self.extra:
            if f in CTX.no_invariant:
                continue
            w = self.inferred(f, None, v["mass"], v["pos"])
            pairs = [(w, v[f])] if self.proto[f] is None else list(zip(w, v[f]))
            if not all(CTX.prove(eq(a, b))[0] == "proved" for a, b in pairs):
                CTX.no_invariant.add(f)
                raise core.Restart()

    def assume_invariant(self):
        """class invariant: stored energy/forces belong to the stored position, thermostat
        constant to the mass"""
        old = self.parts.snapshot()
        pot, d = self.pot, self.d
        b = self.parts.fields

        def pos(i):
            return [old["pos"]((i, a)) for a in range(d)]
        b["energy"].hold((None, lambda idx: pot.e(pos(idx[0]))))

        def force(idx):
            f = pot.f(pos(idx[0]))
            a = idx[1]
            if isinstance(a, int):
                return f[a]
            v = f[-1]
            for q in range(d - 2, -1, -1):
                v = ite(A.ieq(a, q), f[q], v)
            return v
        b["forces"].hold((None, force))
        m = old["mass"]

        def mass(idx):
            v = m(idx)
            CTX.fact_positive(trr(v))
            return v
        b["mass"].hold((None, mass))
        for f in self.extra:
            if f not in CTX.no_invariant:
                def unknown(idx, f=f):
                    i = idx[0]
                    v = self.inferred(f, i, mass((i,)), pos(i))
                    return v if self.proto[f] is None else pick(v, idx[1])
                b[f].hold((None, unknown))
        if "c2" in b:
            b["c2"].hold((None, lambda idx: self.c2(mass(idx))))

    def c1(self):
        return core.sym_exp(-(self.fr * self.dt) / 2)

    def c2(self, mass):
        c1 = self.c1()
        return core.sym_sqrt((1 - c1 * c1) * mass * self.kt)

    def walker(self, snap, i):
        return {f: (g((i,)) if self.proto.get(f, None) is None else [g((i, a)) for a in range(self.d)]) for f, g in snap.items()}

    def generic(self, name="i"):
        i = SymInt(z3.Const(name, I))
        CTX.assume(z3.And(i.e >= 0, i.e < tr(self.n)))
        return i


def draws_of(events, rng, n, i, d):
    """scalars drawn for walker i, in order (list), or None if the pattern is unknown"""
    out = []
    from engine.values import instantiate_facts
    for ev in events:
        if ev[0] == "rng":
            if ev[2] != "standard_normal":
                return None, "draws that are not standard normal"
            if ev[1] is not rng:
                return None, "draws from another generator"
            val, sh = ev[4], ev[3]
            if sh is None:
                return None, "one draw for all walkers"
            pos = [q for q, s in enumerate(sh) if A.same(s, n)]
            if len(pos) != 1:
                return None, "shape of the draws"
            a = pos[0]
            rest = [s for q, s in enumerate(sh) if q != a]
            if not A.concrete(tuple(rest)):
                return None, "shape of the draws"
            for r in A.all_idx(tuple(rest)):
                out.append(val.at(tuple(list(r[:a]) + [i] + list(r[a:]))))
        elif ev[0] == "loop":
            _, k, m, subs = ev
            subs = [s for s in subs]
            if len(subs) != 1 or not A.same(m, n):
                return None, "conditional draws"
            for e in subs[0][1]:
                if e[0] != "rng":
                    continue
                if e[2] != "standard_normal":
                    return None, "draws that are not standard normal"
                if e[1] is not rng:
                    return None, "draws from another generator"
                vals = [e[4]] if e[3] is None else items(e[4])
                instantiate_facts(k, i)
                out.extend(A.subst_val(v, [(k, tr(i))]) for v in vals)
    return out, None
