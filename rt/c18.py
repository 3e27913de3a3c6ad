import os
import random
import subprocess
import sys
import numpy as np
import boot
import gen
import inp
from inp import full, base, write
from mainrun import *
from c17 import setup
import lib
from lib import case, Fail, Skip

lib.CASES[:] = []  # only the cases of this file


def outputs(T, s, d):
    """all output files of a run of main"""
    old = os.getcwd()
    os.makedirs(d)
    if os.path.exists("coeffs.dat"):
        import shutil
        shutil.copy("coeffs.dat", d)
    os.chdir(d)
    try:
        write("in.ini", s)
        run_main(T)
        return {f: open(f, "rb").read() for f in sorted(os.listdir(".")) if f != "in.ini"}
    finally:
        os.chdir(old)


def light(s):
    s = dict(s)
    return s


@case("same-input", 24, 150)
def _(T, r, i):
    d = [1, 2, 3, "mb"][i % 4]
    s = full(d, ld=["bussi-parinello", "overdamped"][i % 2], dist=["random-global", "random-pos", "fractions-pos"][(i // 2) % 3])
    s["ld"]["n_steps"] = "9"
    seeds = [("0", "0", "0"), ("4", "0", "7"), ("0", "5", "0"), ("12", "12", "12")][(i // 4) % 4]
    s["ld"]["seed"], s["birth-death"]["seed"], s["particles"]["seed"] = seeds
    s["birth-death"]["recalculate-probabilities"] = ["true", "false"][i % 2]
    s["birth-death"]["exponential-factor"] = "60"
    T.given(dim=d, seeds=seeds, ld=s["ld"]["type"], distribution=s["particles"]["initial-distribution"])
    np.random.seed(1)
    random.seed(1)
    a = outputs(T, s, "a")
    np.random.seed(77)
    random.seed(3)
    np.random.rand(5)
    b = outputs(T, s, "b")
    for f in a:
        T.expect(a[f] == b.get(f), f"two runs with the same input differ in {f}")
    T.expect(set(a) == set(b), "files differ")


def st(rng):
    return repr(rng.bit_generator.state)


@case("components", 24, 100)
def _(T, r, i):
    """which seed influences what"""
    d = i % 3 + 1
    ldt = ["bussi-parinello", "overdamped"][i % 2]
    s = base(d, ld=ldt, dist=["random-global", "random-pos"][(i // 2) % 2])
    s["birth-death"] = {"stride": "1", "kernel-bandwidth": ",".join(["0.4"] * d)}
    seed = [0, 1, 5, 123][i % 4]
    s["ld"]["seed"] = s["birth-death"]["seed"] = s["particles"]["seed"] = str(seed)
    T.given(seed=seed, ld=ldt, dim=d)
    o, p = setup(T, s), setup(T, s)
    T.expect(st(o["ld"].rng) == st(p["ld"].rng), "generator of the dynamics does not depend on the seed only")
    T.expect(st(o["bd"].rng) == st(p["bd"].rng), "generator of birth-death does not depend on the seed only")
    pos = lambda x: np.array([q.pos for q in x["ld"].particles])
    T.same(pos(o), pos(p), "initial placement does not depend on the seed only")
    T.expect(o["ld"].rng is not o["bd"].rng, "dynamics and birth-death share a generator")
    T.expect(st(o["ld"].rng) != st(o["bd"].rng), "birth-death generator seeded like the one of the dynamics")
    a = o["ld"].rng.random(200)
    b = o["bd"].rng.random(200)
    T.expect(len(set(a) & set(b)) < 3, "streams of dynamics and birth-death overlap")
    # the component owns its generator: using one leaves the other
    before = st(p["bd"].rng)
    T.call(p["ld"].run, 1)
    T.expect(st(p["bd"].rng) == before, "a step of the dynamics uses the generator of birth-death")
    before = st(p["ld"].rng)
    p["bd"].rate_fac = 1e4
    T.call(p["bd"].run, 1)
    T.expect(st(p["ld"].rng) == before, "birth-death uses the generator of the dynamics")
    # other seeds, other numbers
    for sec, what in (("ld", "dynamics"), ("birth-death", "birth-death"), ("particles", "placement")):
        s2 = {k: dict(v) for k, v in s.items()}
        s2[sec]["seed"] = str(seed + 1)
        q = setup(T, s2)
        T.expect((st(q["ld"].rng) != st(setup(T, s)["ld"].rng)) == (sec == "ld"), f"seed of {what} and generator of the dynamics")
        T.expect((st(q["bd"].rng) != st(setup(T, s)["bd"].rng)) == (sec == "birth-death"), f"seed of {what} and generator of birth-death")
        if sec == "particles" and "random-global" in s["particles"]["initial-distribution"]:
            T.expect(not np.array_equal(pos(q), pos(o)), "placement does not depend on its seed")
        if sec != "particles":
            T.same(pos(q), pos(o), f"seed of {what} changes the initial placement")
    # steps are functions of the generator
    for _ in range(2):
        x, y = setup(T, s), setup(T, s)
        for t in range(1, 4):
            T.call(x["ld"].run, t)
            T.call(x["bd"].run, t)
        np.random.rand(3)
        for t in range(1, 4):
            T.call(y["ld"].run, t)
            T.call(y["bd"].run, t)
        T.same(pos(x), pos(y), "same seeds give different trajectories")


@case("unseeded", 3, 6)
def _(T, r, i):
    """without seeds the generators are not fixed"""
    s = base(1)
    s["birth-death"] = {"stride": "1", "kernel-bandwidth": "0.4"}
    for k in ("ld", "particles"):
        s[k].pop("seed", None)
    a, b = setup(T, s), setup(T, s)
    T.expect(st(a["ld"].rng) != st(b["ld"].rng) and st(a["bd"].rng) != st(b["bd"].rng), "unseeded generators are identical")


@case("hash-seed", 1, 4)
def _(T, r, i):
    """results do not depend on hash randomisation, process or time"""
    s = full(2)
    s["ld"]["n_steps"] = "6"
    T.given(input="full 2d input")
    write("in.ini", s)
    here = os.path.dirname(os.path.abspath(__file__))
    code = ("import sys,os;sys.path.insert(0,%r);import boot;from bdld import main;sys.argv=['bdld',sys.argv[1]];"
            "\nwith boot.quiet(): main.main()" % here)
    res = []
    for k in range(2):
        d = f"r{k}"
        os.makedirs(d)
        import shutil
        shutil.copy("coeffs.dat", d)
        shutil.copy("in.ini", d)
        env = dict(os.environ, PYTHONHASHSEED=str(k * 17))
        p = subprocess.run([sys.executable, "-c", code, "in.ini"], cwd=d, env=env, capture_output=True, text=True)
        if p.returncode:
            raise Fail("main fails", stderr=p.stderr[-800:])
        res.append({f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if f != "in.ini"})
    for f in res[0]:
        T.expect(res[0][f] == res[1].get(f), f"two processes with the same input differ in {f}")
