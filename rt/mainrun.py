"""run the real main() on an input file, recording the calls of the actions"""
import os
import sys
import numpy as np
import boot
from lib import Fail
from bdld import main, actions
from bdld.actions.action import Action
from bdld.actions.birth_death import BirthDeath
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.actions.trajectory_action import TrajectoryAction
from bdld.actions.histogram_action import HistogramAction
from bdld.actions.fes_action import FesAction
from bdld.actions.delta_f_action import DeltaFAction
from bdld.actions.particle_distribution import ParticleDistributionAction

CLS = {"ld": (BussiParinelloLD, OverdampedLD), "birth-death": (BirthDeath,), "trajectories": (TrajectoryAction,),
       "histogram": (HistogramAction,), "fes": (FesAction,), "delta-f": (DeltaFAction,),
       "particle-distribution": (ParticleDistributionAction,)}
ORDER = list(CLS)


class spy:
    def __init__(self):
        self.log, self.saved, self.inst = [], [], {}

    def __enter__(self):
        for name, cs in CLS.items():
            for c in cs:
                for m in ("run", "final_run"):
                    self.wrap(name, c, m)
        return self

    def wrap(self, name, c, m):
        orig = getattr(c, m)
        self.saved.append((c, m, m in c.__dict__, c.__dict__.get(m)))
        log, inst = self.log, self.inst
        depth = [0]

        def f(obj, *a, **k):
            step = a[0] if a else k.get("step")
            if depth[0] == 0:
                log.append((m, name, step))
                inst.setdefault(name, obj)
            depth[0] += 1
            try:
                return orig(obj, *a, **k)
            finally:
                depth[0] -= 1

        setattr(c, m, f)

    def __exit__(self, *a):
        for c, m, own, orig in reversed(self.saved):
            if own:
                setattr(c, m, orig)
            else:
                delattr(c, m)


def run_main(T, path="in.ini"):
    old = sys.argv
    sys.argv = ["bdld", path]
    import logging
    logging.disable(logging.CRITICAL)
    try:
        return T.call(main.main)
    finally:
        sys.argv = old
