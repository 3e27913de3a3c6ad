"""generators shared by the runtime cases"""
import itertools
import math

import boot
import numpy as np
from bdld.potential.polynomial import PolynomialPotential
from bdld.potential.mueller_brown import MuellerBrownPotential


def ranges(r, d, big=False):
    out = []
    for _ in range(d):
        lo = float(np.round(r.uniform(-4, 3), 3))
        w = float(np.round(r.uniform(0.2, 5), 3)) + 0.05
        out.append((lo, lo + w))
    return out


def coeffs(r, d, deg=3):
    shape = tuple(int(r.randint(1, deg + 2)) for _ in range(d))
    if d == 1:
        shape = (int(r.randint(2, deg + 3)),)
    return np.round(r.uniform(-2, 2, size=shape), 3)


def poly(r, d, bounded=True):
    with boot.quiet():
        return PolynomialPotential(coeffs(r, d), ranges(r, d))


def gentle(r, d):
    """confining low-amplitude polynomial, so trajectories stay finite"""
    shape = (5,) * d
    c = np.zeros(shape)
    for ax in range(d):
        for k, v in ((1, r.uniform(-.3, .3)), (2, r.uniform(-.3, .6)), (4, r.uniform(.05, .2))):
            idx = [0] * d
            idx[ax] = k
            c[tuple(idx)] = np.round(v, 3)
    rng = [(-2.5 - 0.25 * k, 2.5 + 0.5 * k) for k in range(d)]
    with boot.quiet():
        return PolynomialPotential(c, rng)


def poly_energy(c, x):
    c = np.asarray(c, dtype=float)
    return math.fsum(
        float(c[idx]) * math.prod(float(x[k]) ** e for k, e in enumerate(idx))
        for idx in itertools.product(*[range(n) for n in c.shape]))


def poly_force(c, x):
    c = np.asarray(c, dtype=float)
    out = []
    for d in range(c.ndim):
        terms = []
        for idx in itertools.product(*[range(n) for n in c.shape]):
            if idx[d] == 0:
                continue
            t = float(c[idx]) * idx[d]
            for k, e in enumerate(idx):
                t *= float(x[k]) ** (e - 1 if k == d else e)
            terms.append(t)
        out.append(-math.fsum(terms))
    return np.array(out)


MB = ((-200., -1., 0., -10., 1., 0.), (-100., -1., 0., -10., 0., .5),
      (-175., -6.5, 11., -6.5, -.5, 1.5), (15., .7, .6, .7, -1., 1.))
MB_SHIFT = 30.33319242243656


def mb_energy(s, p):
    x, y = float(p[0]), float(p[1])
    return MB_SHIFT + sum(s * A * math.exp(a * (x - u) ** 2 + b * (x - u) * (y - v) + c * (y - v) ** 2)
                          for A, a, b, c, u, v in MB)


def mb_force(s, p):
    x, y = float(p[0]), float(p[1])
    fx = fy = 0.0
    for A, a, b, c, u, v in MB:
        e = s * A * math.exp(a * (x - u) ** 2 + b * (x - u) * (y - v) + c * (y - v) ** 2)
        fx -= e * (2 * a * (x - u) + b * (y - v))
        fy -= e * (b * (x - u) + 2 * c * (y - v))
    return np.array([fx, fy])


class LogGen(np.random.Generator):
    """a real numpy Generator that records its draws (name, args, result)"""

    def __new__(cls, seed=0):
        return super().__new__(cls, np.random.PCG64(seed))

    def __init__(self, seed=0):
        super().__init__(np.random.PCG64(seed))
        self.log = []
        self.script = {}

    def _rec(self, name, a, k, res):
        self.log.append((name, a, k, np.array(res, copy=True)))
        return res

    def random(self, *a, **k):
        res = super().random(*a, **k)
        if "random" in self.script:
            res = self.script["random"](res)
        return self._rec("random", a, k, res)

    def uniform(self, *a, **k):
        return self._rec("uniform", a, k, super().uniform(*a, **k))

    def integers(self, *a, **k):
        return self._rec("integers", a, k, super().integers(*a, **k))

    def choice(self, *a, **k):
        return self._rec("choice", a, k, super().choice(*a, **k))

    def standard_normal(self, *a, **k):
        return self._rec("standard_normal", a, k, super().standard_normal(*a, **k))

    def normal(self, *a, **k):
        return self._rec("normal", a, k, super().normal(*a, **k))

    def shuffle(self, x, *a, **k):
        super().shuffle(x, *a, **k)
        self._rec("shuffle", a, k, x)

    def permutation(self, *a, **k):
        return self._rec("permutation", a, k, super().permutation(*a, **k))
