"""drives real actions over a history and records what happened at every step"""
import math
import numpy as np
import boot
import gen
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.histogram_action import HistogramAction
from bdld.actions.fes_action import FesAction
from bdld.actions.delta_f_action import DeltaFAction
from bdld.actions.particle_distribution import ParticleDistributionAction


def make_ld(T, r, i, d, n, over=False):
    pot = gen.gentle(r, d)
    ld = T.call(OverdampedLD, pot, 0.02, i) if over else T.call(BussiParinelloLD, pot, 0.02, 1.0, 0.9, i)
    for _ in range(n):
        T.call(ld.add_particle, [float(r.uniform(-1, 1)) for _ in range(d)])
        ld.particles[-1].mom = r.uniform(-1, 1, size=d)
    return ld


def mult(s, k):
    return [t for t in range(1, s + 1) if t % k == 0]


def bin_counts(pos, ranges, nb):
    out = np.zeros(nb)
    for x in pos:
        idx = []
        for v, (lo, hi), m in zip(x, ranges, nb):
            if not lo <= v <= hi:
                break
            idx.append(min(int((v - lo) / (hi - lo) * m), m - 1))
        else:
            out[tuple(idx)] += 1
    return out
