"""birth-death ensembles, oracle rates and event simulation"""
import copy
import itertools
import math

import boot
import numpy as np
import gen
from lib import Fail, Skip
from bdld.actions import birth_death
from bdld.actions.birth_death import BirthDeath, ApproxVariant
from bdld.actions.bussi_parinello_ld import BussiParinelloLD, BpldParticle


def density(pos, bw):
    pos, bw = np.asarray(pos, float), np.asarray(bw, float)
    n, d = pos.shape
    out = np.empty(n)
    norm = 1.0
    for b in bw:
        norm *= 1.0 / (math.sqrt(2 * math.pi) * b)
    for i in range(n):
        s = 0.0
        for j in range(n):
            s += norm * math.exp(-sum((pos[i, k] - pos[j, k]) ** 2 / (2 * bw[k] ** 2) for k in range(d)))
        out[i] = s / n
    return out


def rates(pos, ene, bw, kt):
    b = np.log(density(pos, bw)) + np.asarray(ene, float) / kt
    return b - np.mean(b)


def ensemble(T, r, i, n, d, spread=1.5, over=False):
    pot = gen.gentle(r, d)
    kt = float(np.round(r.uniform(.3, 1.5), 2))
    ld = T.call(BussiParinelloLD, pot, 0.01, 1.0, kt, 3 + i)
    for k in range(n):
        pos = [float(np.round(r.uniform(-spread, spread), 3)) for _ in range(d)]
        T.call(ld.add_particle, pos, float(np.round(r.uniform(.5, 3), 2)))
        ld.particles[k].mom = np.round(r.uniform(-2, 2, size=d), 3)
        ld.particles[k].tag = [k, [float(k)]]  # "all other stored properties"
    return pot, ld, kt


def fieldsof(p):
    return {k: copy.deepcopy(v) for k, v in vars(p).items()}


def same_fields(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not np.array_equal(np.asarray(x), np.asarray(y)):
                return False
        elif x != y:
            return False
    return True


def mutable_ids(p):
    """ids of all mutable objects reachable from the walker (its own id included)"""
    out = {id(p): "walker"}

    def walk(x, name):
        if isinstance(x, np.ndarray):
            out[id(x)] = name
            b = x
            while isinstance(b.base, np.ndarray):
                b = b.base
                out[id(b)] = name
        elif isinstance(x, (list, dict, set)):
            out[id(x)] = name
            for y in (x.values() if isinstance(x, dict) else x):
                walk(y, name)
        elif isinstance(x, tuple):
            for y in x:
                walk(y, name)

    for k, v in vars(p).items():
        walk(v, k)
    return out


def check_unshared(T, parts, what):
    seen = {}
    for k, p in enumerate(parts):
        for i, name in mutable_ids(p).items():
            if i in seen and seen[i][0] != k:
                raise Fail(f"{what}: walkers {seen[i][0]} and {k} share mutable state ({name})")
            seen[i] = (k, name)
    T.n_expect += 1
    for k, p in enumerate(parts):
        others = [fieldsof(q) for q in parts]
        p.pos += 1.0
        p.mom -= 1.0
        p.forces += 0.5
        for j, q in enumerate(parts):
            if j != k and not same_fields(others[j], fieldsof(q)):
                raise Fail(f"{what}: changing walker {k} in place changed walker {j}")
        p.pos -= 1.0
        p.mom += 1.0
        p.forces -= 0.5


def as_events(ev):
    return [(int(a), int(b)) for a, b in ev]


def apply_events(states, events):
    st = [copy.deepcopy(s) for s in states]
    for dup, kill in events:
        st[kill] = copy.deepcopy(st[dup])
    return st


def own_draws(log, n):
    """the vector of uniform numbers, one per walker; None if not identifiable"""
    vec = [np.ravel(l[3]) for l in log if l[0] in ("random", "uniform") and np.ravel(l[3]).size == n]
    if len(vec) == 1:
        return vec[0]
    return None


def prob(beta, dt, fac):
    return 1 - math.exp(-abs(beta) * dt * fac)


EPS = 1e-12


def match_bulk(betas, rand, dt, fac, events):
    """is there a processing order for which exactly these events result?"""
    n = len(betas)
    S = [i for i in range(n) if rand[i] <= prob(betas[i], dt, fac)]
    for order in itertools.permutations(S):
        killed, k, ok = set(), 0, True
        for i in order:
            if i in killed:
                continue
            if k >= len(events):
                ok = False
                break
            dup, kill = events[k]
            if (kill if betas[i] > 0 else dup) != i or dup == kill:
                ok = False
                break
            killed.add(kill)
            k += 1
        if ok and k == len(events):
            return True
    return False


def match_recalc(rate_fn, states, rand, dt, fac, events):
    """same for the mode with recalculated rates.  returns (ok, kill att, dup att, kills, dups) list"""
    n = len(states)
    sols = []

    def rec(done, st, betas, k, stat):
        if len(done) == n:
            if k == len(events):
                sols.append(stat)
            return
        for i in range(n):
            if i in done:
                continue
            ka, da, kc, dc = stat
            if betas[i] > 0:
                ka += 1
            elif betas[i] < 0:
                da += 1
            if rand[i] <= prob(betas[i], dt, fac):
                if k >= len(events):
                    continue
                dup, kill = events[k]
                if (kill if betas[i] > 0 else dup) != i or dup == kill:
                    continue
                st2 = apply_events(st, [events[k]])
                rec(done | {i}, st2, rate_fn(st2), k + 1,
                    (ka, da, kc + (betas[i] > 0), dc + (betas[i] <= 0)))
            else:
                rec(done | {i}, st, betas, k, (ka, da, kc, dc))
            if len(sols) > 200:
                return

    rec(frozenset(), states, rate_fn(states), 0, (0, 0, 0, 0))
    return sols


def borderline(betas, rand, dt, fac):
    return any(abs(rand[i] - prob(b, dt, fac)) < 1e-9 or abs(b) < 1e-9 for i, b in enumerate(betas))
