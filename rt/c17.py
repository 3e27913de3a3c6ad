import os
import numpy as np
import boot
import gen
import inp
from inp import full, base, write
from mainrun import *
from lib import case, Fail, Skip, read_table
from bdld.inputparser import Input
from bdld.actions.birth_death import ApproxVariant


@case("order", 36, 300)
def _(T, r, i):
    d = [1, 2, 3, "mb"][i % 4]
    s = full(d, ld=["bussi-parinello", "overdamped"][i % 2], dist=["random-global", "random-pos", "fractions-pos"][i % 3])
    opt = ["birth-death", "trajectories", "histogram", "fes", "delta-f", "particle-distribution"]
    if i >= 6:
        drop = {o for o in opt if r.randint(0, 3) == 0}
        if "trajectories" in drop:
            drop.add("histogram")
        if "histogram" in drop:
            drop.add("fes")
        if "fes" in drop:
            drop.add("delta-f")
        for o in drop:
            del s[o]
    n = [7, 1, 2, 12, 5][i % 5]
    s["ld"]["n_steps"] = str(n)
    if i % 5 == 1 and "histogram" in s:
        s["histogram"].pop("reset")
    secs = list(s.items())
    r.shuffle(secs)  # order in the file does not matter
    write("in.ini", dict(secs))
    T.given(sections=[k for k, _ in secs], n_steps=n, dim=d)
    cnt = []
    with spy() as sp:
        orig = BirthDeath.do_birth_death
        BirthDeath.do_birth_death = lambda self, *a, **k: (cnt.append(sp.log[-1][2]), orig(self, *a, **k))[1]
        try:
            run_main(T)
        finally:
            BirthDeath.do_birth_death = orig
    present = [o for o in ORDER if o == "ld" or o in s]
    want = [("run", o, t) for t in range(1, n + 1) for o in present] + [("final_run", o, n) for o in present]
    if sp.log != want:
        k = next((k for k, (a, b) in enumerate(zip(sp.log, want)) if a != b), min(len(sp.log), len(want)))
        raise Fail("calls of the actions", first_difference=k, got=sp.log[k:k + 4], want=want[k:k + 4], n_got=len(sp.log), n_want=len(want))
    T.n_expect += len(want)
    if "birth-death" in s:
        T.expect(cnt == [t for t in range(1, n + 1) if t % 2 == 0], "birth-death evaluated at other steps than multiples of its stride", got=cnt)
    ld = sp.inst["ld"]
    T.expect(len(ld.particles) == 5, "number of particles")
    # all actions work on the same dynamics
    if "birth-death" in s:
        T.expect(sp.inst["birth-death"].particles is ld.particles, "birth-death acts on other particles than the dynamics")
    if "trajectories" in s:
        T.expect(sp.inst["trajectories"].ld is ld, "trajectories of other dynamics")
        T.expect(os.path.exists("traj.0") and os.path.exists("traj.4"), "trajectory files")
    if "particle-distribution" in s:
        T.expect(sp.inst["particle-distribution"].particles is ld.particles, "distribution of other particles")


def eqv(T, obj, name, want, what):
    if not hasattr(obj, name):
        T.notes.add(f"{type(obj).__name__} has no {name}")
        return
    got = getattr(obj, name)
    if isinstance(want, (list, np.ndarray)) or isinstance(got, np.ndarray):
        T.close(np.asarray(got, float), np.asarray(want, float), what, rtol=1e-12, atol=0)
    elif isinstance(want, float):
        T.close(float(got), want, what, rtol=1e-12, atol=0)
    else:
        T.expect(got == want, what, got=got, want=want)


def setup(T, s):
    write("in.ini", s)
    c = T.call(Input, "in.ini")
    pot = T.call(main.setup_potential, c.potential)
    ld = T.call(main.setup_ld, c.ld, pot)
    T.call(main.init_particles, c.particles, ld)
    out = {"ld": ld, "pot": pot}
    if c.birth_death:
        out["bd"] = T.call(main.setup_birth_death, c.birth_death, ld)
    if c.trajectories is not None:
        out["ta"] = T.call(main.setup_trajectories, c.trajectories, ld)
    if c.histogram:
        out["ha"] = T.call(main.setup_histogram, c.histogram, out["ta"])
    if c.fes:
        out["fa"] = T.call(main.setup_fes, c.fes, out["ha"])
    if c.delta_f:
        out["da"] = T.call(main.setup_delta_f, c.delta_f, out["fa"])
    if c.particle_distribution:
        out["pa"] = T.call(main.setup_particle_distribution, c.particle_distribution, ld)
    return out


def fl(t):
    return [float(x) for x in t.split(",")]


TITLES = ["ttl", "run #3", "A ; B", "x = y: z", "100 % (kT)", "$F$ [kT], 'FES'"]


@case("wiring", 18, 120)
def _(T, r, i):
    d = [1, 2, 3, "mb", 1, 2][i % 6]
    dim = 2 if d == "mb" else d
    s = full(d)
    f3 = lambda a, b: repr(round(float(r.uniform(a, b)), 3))
    k = lambda a, b: str(int(r.randint(a, b)))
    s["ld"].update(timestep=f3(.001, .1), kt=f3(.2, 3), friction=f3(0, 9), seed=k(0, 50))
    s["particles"].update(number=k(2, 9), mass=f3(.2, 4))
    if d == "mb":
        s["potential"]["scaling-factor"] = f3(.01, 2)
    bc = [None, "reflective", "periodic"][i % 3]
    if bc:
        s["potential"]["boundary-condition"] = bc
    bw = [f3(.2, .9) for _ in range(dim)]
    st = int(r.randint(1, 9))
    s["birth-death"].update({"stride": str(st), "kernel-bandwidth": ",".join(bw), "exponential-factor": f3(.1, 9),
                             "recalculate-probabilities": ["true", "false"][i % 2], "stats-stride": k(1, 9), "seed": k(0, 90)})
    ws = int(r.randint(1, 20))
    s["trajectories"].update({"stride": k(1, 9), "write-stride": str(ws), "momentum": ["on", "off"][(i // 2) % 2]})
    s["histogram"].update({"stride": k(1, 9), "write-stride": k(1, 50), "reset": ["3,7,11", "11,3,7", "7,3,11,3"][i % 3]})
    s["fes"].update({"kt": f3(.2, 3), "stride": k(1, 30), "write-stride": k(1, 50), "plot-stride": k(1, 50), "plot-filename": "plt"})
    title, dom = TITLES[i % len(TITLES)], ["0,3", "4,-1", "2.5, 2.5"][(i // 2) % 3]
    s["fes"].update({"plot-title": title, "plot-domain": dom})
    hname = ["histo", "histo 2", "histo #2", "Histo;a"][i % 4]
    s["histogram"]["filename"] = hname
    ds, ps = int(r.randint(1, 9)), int(r.randint(1, 9))
    s["delta-f"].update({"stride": str(ds), "write-stride": str(ds * int(r.randint(1, 9)))})
    s["particle-distribution"].update({"stride": str(ps), "write-stride": str(ps * int(r.randint(1, 9)))})
    T.given(input=s)
    o = setup(T, s)
    ld, pot = o["ld"], o["pot"]
    dt = float(s["ld"]["timestep"])
    eqv(T, ld, "dt", dt, "timestep of the dynamics")
    eqv(T, ld, "kt", float(s["ld"]["kt"]), "kt of the dynamics")
    eqv(T, ld, "friction", float(s["ld"]["friction"]), "friction of the dynamics")
    T.expect(ld.pot is pot, "potential of the dynamics")
    if d == "mb":
        eqv(T, pot, "scaling_factor", float(s["potential"]["scaling-factor"]), "scaling factor")
    else:
        lo, hi = fl(s["potential"]["min"]), fl(s["potential"]["max"])
        eqv(T, pot, "ranges", [list(x) for x in zip(lo, hi)], "ranges of the potential")
        x = r.uniform(-1, 1, size=dim)
        if d == 1:
            c = np.array(fl(s["potential"]["coeffs"]))
            T.close(T.call(pot.energy, x), gen.poly_energy(c, x), "coefficients of the potential")
        else:
            w = sum(v * x[a] ** e for a in range(dim) for e, v in ((2, -.5 - .1 * a), (4, .25)))
            T.close(T.call(pot.energy, x), w, "coefficients of the potential")
    BC = main.potential.potential.BoundaryCondition
    T.expect(pot.boundary_condition == {None: None, "reflective": BC.reflective, "periodic": BC.periodic}[bc], "boundary condition")
    T.expect(len(ld.particles) == int(s["particles"]["number"]) and all(p.mass == float(s["particles"]["mass"]) for p in ld.particles),
             "number and mass of the particles")
    bd = o["bd"]
    eqv(T, bd, "stride", st, "stride of birth-death")
    eqv(T, bd, "dt", st * dt, "time between birth-death evaluations is stride*timestep")
    eqv(T, bd, "bw", [float(x) for x in bw], "kernel bandwidth")
    eqv(T, bd, "kt", float(s["ld"]["kt"]), "kt of birth-death")
    eqv(T, bd, "rate_fac", float(s["birth-death"]["exponential-factor"]), "exponential factor")
    eqv(T, bd, "recalc_probs", i % 2 == 0, "recalculate-probabilities")
    eqv(T, bd, "stats_stride", int(s["birth-death"]["stats-stride"]), "stats stride")
    eqv(T, bd.stats, "stats_filename", "bdstats", "stats filename")
    T.expect(os.path.exists("bdstats"), "statistics file")
    T.expect(bd.approx_variant == ApproxVariant.orig, "default approximation variant")
    T.expect(bd.particles is ld.particles, "particles of birth-death")
    ta = o["ta"]
    eqv(T, ta, "stride", int(s["trajectories"]["stride"]), "stride of the trajectories")
    eqv(T, ta, "write_stride", ws, "write stride of the trajectories")
    eqv(T, ta, "store_momentum", (i // 2) % 2 == 0, "momentum option")
    eqv(T, ta, "write_fmt", "%.10g", "format of the trajectories")
    T.expect(os.path.exists("traj.0"), "filename of the trajectories")
    ha = o["ha"]
    eqv(T, ha, "stride", int(s["histogram"]["stride"]), "stride of the histogram")
    eqv(T, ha, "write_stride", int(s["histogram"]["write-stride"]), "write stride of the histogram")
    T.expect(sorted(set(ha.reset)) == [3, 7, 11], "reset steps of the histogram", reset=list(ha.reset))
    eqv(T, ha, "filename", hname, "filename of the histogram")
    eqv(T, ha, "write_fmt", "%.8g", "format of the histogram")
    T.expect(ha.traj_action is ta, "trajectories of the histogram")
    T.expect(list(ha.histo.n_points) == [int(x) for x in s["histogram"]["bins"].split(",")], "bins of the histogram")
    T.close(ha.histo.histo_ranges if hasattr(ha.histo, "histo_ranges") else [list(x) for x in zip(fl(s["histogram"]["min"]), fl(s["histogram"]["max"]))],
            [list(x) for x in zip(fl(s["histogram"]["min"]), fl(s["histogram"]["max"]))], "ranges of the histogram")
    T.close([b[0] for b in ha.histo.bins], fl(s["histogram"]["min"]), "lower edge of the histogram")
    T.close([b[-1] for b in ha.histo.bins], fl(s["histogram"]["max"]), "upper edge of the histogram")
    fa = o["fa"]
    eqv(T, fa, "kt", float(s["fes"]["kt"]), "kt of the fes")
    for a, b in (("stride", "stride"), ("write_stride", "write-stride"), ("plot_stride", "plot-stride")):
        eqv(T, fa, a, int(s["fes"][b]), f"{b} of the fes")
    for a, w in (("filename", "fes"), ("write_fmt", "%.7g"), ("plot_filename", "plt"), ("plot_title", title), ("plot_domain", fl(dom))):
        eqv(T, fa, a, w, f"{a} of the fes")
    T.expect(fa.histo_action is ha, "histogram of the fes")
    if hasattr(fa, "ref"):
        u = np.array([T.call(pot.energy, p) for p in T.call(ha.histo.points)], float)
        T.close(fa.ref, u - u.min(), "reference of the fes", rtol=1e-8, atol=1e-8 * (1 + np.abs(u).max()))
    da = o["da"]
    eqv(T, da, "stride", ds, "stride of delta-f")
    eqv(T, da, "write_stride", int(s["delta-f"]["write-stride"]), "write stride of delta-f")
    eqv(T, da, "filename", "deltaf", "filename of delta-f")
    eqv(T, da, "write_fmt", "%.6g", "format of delta-f")
    eqv(T, da, "kt", float(s["fes"]["kt"]), "kt of delta-f")
    pts = T.call(ha.histo.points)
    for q in (1, 2):
        lo, hi = fl(s["delta-f"][f"state{q}-min"]), fl(s["delta-f"][f"state{q}-max"])
        T.expect(np.asarray(da.masks[q - 1]).tolist() == [all(a <= v <= b for v, a, b in zip(p, lo, hi)) for p in pts], f"mask of state {q}")
    T.expect(da.fes_action is fa, "fes of delta-f")
    pa = o["pa"]
    eqv(T, pa, "stride", ps, "stride of the particle distribution")
    eqv(T, pa, "write_stride", int(s["particle-distribution"]["write-stride"]), "write stride of the particle distribution")
    eqv(T, pa, "filename", "dist", "filename of the particle distribution")
    eqv(T, pa, "write_fmt", "%.5g", "format of the particle distribution")
    T.close(np.array(pa.states), np.array([[list(x) for x in zip(fl(s["particle-distribution"][f"state{q}-min"]),
                                                                 fl(s["particle-distribution"][f"state{q}-max"]))] for q in (1, 2)]), "states")


@case("defaults", 12, 40)
def _(T, r, i):
    d = [1, 2, 3, "mb"][i % 4]
    dim = 2 if d == "mb" else d
    s = full(d, ld=["bussi-parinello", "overdamped"][(i // 4) % 2])
    v = lambda a: ",".join([a] * dim)
    if d == "mb":
        s["potential"].pop("scaling-factor")
    s["particles"].pop("mass")
    s["birth-death"] = {"stride": "3", "kernel-bandwidth": v("0.4")}
    s["trajectories"] = {"filename": "traj"}
    h = s["histogram"]
    s["histogram"] = {k: h[k] for k in ("min", "max", "bins")}
    s["fes"] = {"kt": "0.8"}
    for sec in ("delta-f", "particle-distribution"):
        s[sec] = {k: x for k, x in s[sec].items() if k.startswith("state")}
    T.given(input=s)
    o = setup(T, s)
    ta, ha, fa, da, pa, bd = (o[k] for k in ("ta", "ha", "fa", "da", "pa", "bd"))
    T.expect(all(p.mass == 1.0 for p in o["ld"].particles), "default mass")
    if d == "mb":
        eqv(T, o["pot"], "scaling_factor", 1.0, "default scaling factor")
    if (i // 4) % 2:
        eqv(T, o["ld"], "kt", 1.0, "kt of the overdamped dynamics")
    eqv(T, bd, "rate_fac", 1.0, "default exponential factor")
    eqv(T, bd, "recalc_probs", False, "default of recalculate-probabilities")
    eqv(T, bd, "stats_stride", None, "default stats stride")
    eqv(T, ta, "stride", 1, "default trajectory stride")
    eqv(T, ta, "write_stride", 100, "default write stride of the trajectories")
    T.expect(not ta.store_momentum, "momentum stored by default")
    for a in (ta, ha, fa, da, pa):
        eqv(T, a, "write_fmt", "%14.9f", "default format")
    eqv(T, ha, "stride", 1, "default histogram stride")
    T.expect(not ha.reset and not ha.write_stride and not ha.filename, "histogram defaults")
    T.expect(not fa.stride and not fa.write_stride and not fa.plot_stride and not fa.filename, "fes defaults")
    T.expect(not da.stride and not pa.stride, "stride defaults")
    s["delta-f"].update(stride="4", filename="df")
    s["particle-distribution"].update(stride="5", filename="pd")
    o = setup(T, s)
    eqv(T, o["da"], "write_stride", 400, "default write stride of delta-f")
    eqv(T, o["pa"], "write_stride", 500, "default write stride of the particle distribution")


@case("variant-wiring", 8, 16)
def _(T, r, i):
    s = base(1)
    key, val, want = [("approximation-variant", "additive", ApproxVariant.add), ("correction-variant", "multiplicative", ApproxVariant.mult),
                      ("approximation-variant", "original", ApproxVariant.orig), ("approximation-variant", "mult", ApproxVariant.mult)][i % 4]
    s["birth-death"] = {"stride": "3", "kernel-bandwidth": "0.4", key: val}
    if i % 8 >= 4:
        s["birth-death"]["correction-variant"] = "additive"
        if key == "correction-variant":
            want = ApproxVariant.add
    T.given(options=s["birth-death"])
    o = setup(T, s)
    T.expect(o["bd"].approx_variant == want, "approximation variant (approximation-variant has precedence)", got=str(o["bd"].approx_variant))


@case("fes-run", 20, 200)
def _(T, r, i):
    """fes: calculated at its stride and finally, written at the write stride, plot gets the step's data"""
    from bdld.actions import fes_action
    d = i % 2 + 1
    s = full(d)
    st, wst = int(r.randint(1, 5)), int(r.randint(1, 5))
    s["trajectories"] = {"write-stride": "1"}
    s["histogram"].pop("reset")
    s["histogram"].update({"stride": "1", "write-stride": "4"})
    s["fes"].update({"stride": str(st), "write-stride": str(st * wst)})
    n = int(r.randint(1, 14))
    s["ld"]["n_steps"] = str(n)
    s.pop("birth-death")
    write("in.ini", s)
    T.given(fes_stride=st, write_stride=st * wst, n_steps=n)
    with spy() as sp:
        run_main(T)
    files = sorted(f for f in os.listdir(".") if f.startswith("fes_"))
    T.expect(files == sorted(f"fes_{t}" for t in range(1, n + 1) if t % (st * wst) == 0), "free energy files", got=files)
    T.expect(os.path.exists("fes") and os.path.exists("histo"), "final files")
    hf = sorted(f for f in os.listdir(".") if f.startswith("histo_"))
    T.expect(hf == sorted(f"histo_{t}" for t in range(1, n + 1) if t % 4 == 0), "histogram files", got=hf)
    cnt = np.array(sp.inst["histogram"].histo.data).flatten()
    rows = np.array(read_table("fes")[1])
    with np.errstate(all="ignore"):
        F = np.where(cnt > 0, -.8 * np.log(np.where(cnt > 0, cnt, 1)), np.inf)
    F = F - F.min() if np.isfinite(F.min()) else F
    T.close(rows[:, -1], F, "final free energy file", rtol=1e-4, atol=1e-4)
