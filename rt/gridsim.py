"""independent grid oracles"""
import itertools
import math
import numpy as np
import boot
from bdld import grid


def axis(lo, hi, n):
    return [lo + (hi - lo) * k / (n - 1) if n > 1 else lo for k in range(n)]


def points(ranges, n):
    return np.array(list(itertools.product(*[axis(lo, hi, m) for (lo, hi), m in zip(ranges, n)])), dtype=float).reshape(-1, len(n))


def kernel(x, bw):
    return math.prod(math.exp(-xi ** 2 / (2 * b * b)) / (math.sqrt(2 * math.pi) * b) for xi, b in zip(x, bw))


def conv_full(a, k):
    """discrete convolution, direct summation"""
    out = np.zeros([m + n - 1 for m, n in zip(a.shape, k.shape)])
    for idx in np.ndindex(*k.shape):
        out[tuple(slice(i, i + m) for i, m in zip(idx, a.shape))] += a * k[idx]
    return out


def smoothed(data, ranges, n, bw, mode="same"):
    h = [(hi - lo) / (m - 1) for (lo, hi), m in zip(ranges, n)]
    nk = [int(math.ceil(10 * b / s - 1e-9)) + 1 for b, s in zip(bw, h)]
    kd = np.empty(nk)
    for idx in np.ndindex(*nk):
        kd[idx] = kernel([-5 * b + i * s for b, i, s in zip(bw, idx, h)], bw)
    full = conv_full(np.asarray(data, float), kd) * math.prod(h)
    if mode == "same":
        return full[tuple(slice((m - 1) // 2, (m - 1) // 2 + k) for m, k in zip(nk, n))], nk
    return full[tuple(slice(min(m, k) - 1, max(m, k)) for m, k in zip(nk, n))], nk


def trapz(data, h):
    d = np.asarray(data, float)
    for s in reversed(h):
        w = np.ones(d.shape[-1])
        w[0] = w[-1] = 0.5
        if d.shape[-1] == 1:
            w[0] = 0.0
        d = (d * w).sum(axis=-1) * s
    return float(d)


def bw_for(r, h):
    """bandwidth such that the 5 sigma kernel grid does not fit exactly (no rounding ambiguity)"""
    return [float((2 * int(r.randint(2, 5)) + 0.5) * s / 10) for s in h]


def lin1d(x, y, q, fill):
    return np.interp(q, x, y, left=fill, right=fill)
