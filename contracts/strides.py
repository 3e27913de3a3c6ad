"""Arithmetic of strides: an arbitrary step t of a storage that wraps every W steps."""
from .common import *


class Clock:
    """kind 'every-step': a row per step (u = 1), rows wanted at multiples of s;
    'own-stride': a row per multiple of s (u = s), W = s*R"""

    def __init__(self, kind):
        self.kind = kind
        self.s = integer("s")
        self.B = integer("B")
        CTX.assume(z3.And(self.s.e >= 1, self.B.e >= 0))
        if kind == "every-step":
            self.u, self.W = 1, integer("W")
            self.rows = self.W
            CTX.assume(self.W >= 1)
        else:
            self.u, self.rows = self.s, integer("R")
            CTX.assume(self.rows >= 1)
            self.W = self.s * self.rows
        self.base = self.W * self.B

    def lemma(self, name, f):
        CTX.check(f"lemma.{name}", f)
        CTX.assume(f)

    def at_step(self, final=False):
        """t in (base, base+W], last write in [base, t-1] ([base, t] at the end)"""
        s, W, B = self.s, self.W, self.B
        self.kl, self.rl = integer("kl"), integer("rl")
        self.ks, self.rs = integer("ks"), integer("rs")
        kl, rl, ks, rs = self.kl, self.rl, self.ks, self.rs
        self.lw = s * kl + rl
        self.t = s * ks + rs
        lw, t, base = self.lw, self.t, self.base
        # universally valid facts about products that the solver needs
        se, k0, k1 = s.e, kl.e, ks.e
        self.lemma("monotone", z3.Implies(z3.And(se >= 1, k1 >= k0 + 1), se * k1 >= se * k0 + se))
        self.lemma("monotone", z3.Implies(z3.And(se >= 1, k1 < k0), se * k1 + se <= se * k0))
        if self.kind == "own-stride":
            RB = self.rows.e * self.B.e
            R1 = RB + self.rows.e
            for x in (k0, k1):
                for y in (RB, R1):
                    self.lemma("monotone", z3.Implies(z3.And(se >= 1, x >= y + 1), se * x >= se * y + se))
                    self.lemma("monotone", z3.Implies(z3.And(se >= 1, x < y), se * x + se <= se * y))
                    self.lemma("monotone", z3.Implies(x == y, se * x == se * y))
            self.lemma("nonneg", z3.Implies(z3.And(self.rows.e >= 1, self.B.e >= 0), RB >= 0))
        CTX.assume(z3.And(kl.e >= 0, rl.e >= 0, rl.e < se, ks.e >= 0, rs.e >= 0, rs.e < se))
        self.lemma("nonneg", z3.And(tr(base) >= 0))
        CTX.assume(z3.And(tr(base) <= tr(lw), tr(base) < tr(t), tr(t) <= tr(base) + tr(W)))
        CTX.assume(tr(lw) <= tr(t) if final else tr(lw) <= tr(t) - 1)
        self.wraps = wrap(tr(t) == tr(base) + tr(W))
        self.full = bool(self.wraps)
        CTX.hint_div(t, s, ks, rs)
        CTX.hint_div(lw, s, kl, rl)
        if self.full:
            CTX.hint_div(t, W, B + 1, 0)
        else:
            CTX.hint_div(t, W, B, t - base)
        CTX.hint_div(t - 1, W, B, t - 1 - base)
        if final and bool(wrap(tr(lw) == tr(base) + tr(W))):
            CTX.hint_div(lw, W, B + 1, 0)
        else:
            CTX.hint_div(lw, W, B, lw - base)
        if self.kind == "own-stride":
            RB = self.rows * B
            CTX.hint_div(t - base, s, ks - RB, rs)
            CTX.hint_div(lw - base, s, kl - RB, rl)
            CTX.hint_div(W, s, self.rows, 0)
            CTX.hint_div(0, s, 0, 0)
        self.count = ks - kl

    def time_of(self, j):
        """time whose sample is stored in row j"""
        return self.base + self.u * (j + 1)

    def tau(self, q):
        """time of the q-th row to be written"""
        return (self.kl + 1 + q) * self.s

    def row_of(self, q):
        if self.kind == "every-step":
            return self.tau(q) - self.base - 1
        return self.kl + q - self.rows * self.B
