"""input files for the parser / main cases"""
import numpy as np

LIST = "list"


def write(path, secs):
    with open(path, "w") as f:
        for name, opts in secs.items():
            f.write(f"[{name}]\n")
            for k, v in opts.items():
                f.write(f"{k} = {v}\n")
            f.write("\n")


def base(d=1, ld="bussi-parinello", dist="random-global"):
    s = {"ld": {"type": ld, "timestep": "0.01", "n_steps": "7", "seed": "4"}}
    if ld == "bussi-parinello":
        s["ld"].update({"kt": "1.5", "friction": "2.0"})
    if d == 1:
        s["potential"] = {"type": "polynomial", "n_dim": "1", "coeffs": "0,0.2,-1,0,0.5", "min": "-2.5", "max": "2.25"}
    elif d == "mb":
        s["potential"] = {"type": "mueller-brown", "scaling-factor": "0.1"}
    else:
        s["potential"] = {"type": "polynomial", "n_dim": str(d), "coeffs-file": "coeffs.dat",
                          "min": ",".join(["-2.5", "-2", "-1.5"][:d]), "max": ",".join(["2.25", "2.5", "1.75"][:d])}
        with open("coeffs.dat", "w") as f:
            for k in range(d):
                for e, v in ((2, -.5 - .1 * k), (4, .25)):
                    idx = [0] * d
                    idx[k] = e
                    f.write(" ".join(map(str, idx)) + f" {v}\n")
    dim = 2 if d == "mb" else d
    s["particles"] = {"number": "5", "mass": "2.0", "seed": "9", "initial-distribution": dist}
    if dist != "random-global":
        s["particles"]["pos1"] = ",".join(["0.5"] * dim)
        s["particles"]["pos2"] = ",".join(["-0.75"] * dim)
    if dist == "fractions-pos":
        s["particles"]["fractions"] = "0.4,0.6"
    return s


def full(d=1, **kw):
    s = base(d, **kw)
    dim = 2 if d == "mb" else d
    v = lambda a: ",".join(a[:dim])
    s["birth-death"] = {"stride": "2", "kernel-bandwidth": v(["0.4", "0.5", "0.6"]), "exponential-factor": "3.5",
                        "recalculate-probabilities": "true", "stats-stride": "3", "stats-filename": "bdstats", "seed": "11"}
    s["trajectories"] = {"filename": "traj", "stride": "2", "momentum": "on", "write-stride": "3", "fmt": "%.10g"}
    s["histogram"] = {"min": v(["-2", "-1.5", "-1"]), "max": v(["2", "1.75", "1.5"]), "bins": v(["8", "6", "5"]), "stride": "3",
                      "reset": "2,4", "filename": "histo", "write-stride": "6", "fmt": "%.8g"}
    s["fes"] = {"kt": "0.8", "stride": "3", "filename": "fes", "write-stride": "6", "fmt": "%.7g", "plot-title": "ttl", "plot-domain": "0,3"}
    s["delta-f"] = {"stride": "3", "filename": "deltaf", "write-stride": "6", "fmt": "%.6g",
                    "state1-min": v(["-2", "-1.5", "-1"]), "state1-max": v(["0", "0.5", "1"]),
                    "state2-min": v(["0", "-.5", "-.5"]), "state2-max": v(["2", "1.5", "1.25"])}
    s["particle-distribution"] = {"stride": "2", "filename": "dist", "write-stride": "4", "fmt": "%.5g",
                                  "state1-min": v(["-2", "-1.5", "-1"]), "state1-max": v(["0", "0.5", "1"]),
                                  "state2-min": v(["0", "-.5", "-.5"]), "state2-max": v(["2", "1.5", "1.25"])}
    return s


# (section, option, kind, condition, required, default) ; kind may depend on the dimension: "num"/"numlist"
POS, NONNEG, ANY, DIM = "positive", "nonneg", "any", "1to3"
TABLE = [
    ("ld", "timestep", "float", NONNEG, True, None), ("ld", "n_steps", "int", POS, True, None),
    ("ld", "seed", "int", ANY, False, None), ("ld", "kt", "float", POS, True, None),
    ("ld", "friction", "float", NONNEG, True, None),
    ("potential", "n_dim", "int", DIM, True, None), ("potential", "min", "float*", ANY, True, None),
    ("potential", "max", "float*", ANY, True, None), ("potential", "coeffs", "floats", ANY, False, None),
    ("particles", "number", "int", POS, True, None), ("particles", "mass", "float", POS, False, 1.0),
    ("particles", "seed", "int", ANY, False, None),
    ("birth-death", "stride", "int", POS, True, None), ("birth-death", "kernel-bandwidth", "float*", POS, True, None),
    ("birth-death", "exponential-factor", "float", POS, False, None),
    ("birth-death", "recalculate-probabilities", "bool", ANY, False, False),
    ("birth-death", "stats-stride", "int", POS, False, None), ("birth-death", "stats-filename", "str", ANY, False, None),
    ("birth-death", "seed", "int", ANY, False, None),
    ("trajectories", "filename", "str", ANY, False, None), ("trajectories", "stride", "int", POS, False, None),
    ("trajectories", "momentum", "bool", ANY, False, None), ("trajectories", "write-stride", "int", POS, False, None),
    ("trajectories", "fmt", "str", ANY, False, None),
    ("histogram", "stride", "int", POS, False, None), ("histogram", "reset", "ints", POS, False, None),
    ("histogram", "filename", "str", ANY, False, None), ("histogram", "write-stride", "int", POS, False, None),
    ("histogram", "fmt", "str", ANY, False, None), ("histogram", "min", "float*", ANY, True, None),
    ("histogram", "max", "float*", ANY, True, None), ("histogram", "bins", "int*", POS, True, None),
    ("fes", "kt", "float", POS, True, None), ("fes", "stride", "int", POS, False, None),
    ("fes", "filename", "str", ANY, False, None), ("fes", "write-stride", "int", POS, False, None),
    ("fes", "fmt", "str", ANY, False, None), ("fes", "plot-domain", "floats", ANY, False, None),
    ("fes", "plot-filename", "str", ANY, False, None), ("fes", "plot-title", "str", ANY, False, None),
    ("fes", "plot-stride", "int", ANY, False, None),
    ("delta-f", "stride", "int", POS, False, None), ("delta-f", "filename", "str", ANY, False, None),
    ("delta-f", "write-stride", "int", POS, False, None), ("delta-f", "fmt", "str", ANY, False, None),
    ("delta-f", "state1-min", "floats", ANY, True, None), ("delta-f", "state2-max", "floats", ANY, True, None),
    ("particle-distribution", "stride", "int", POS, False, None),
    ("particle-distribution", "filename", "str", ANY, False, None),
    ("particle-distribution", "write-stride", "int", POS, False, None),
    ("particle-distribution", "fmt", "str", ANY, False, None),
    ("particle-distribution", "state1-max", "floats", ANY, True, None),
]
ATTR = {"ld": "ld", "potential": "potential", "particles": "particles", "birth-death": "birth_death",
        "trajectories": "trajectories", "histogram": "histogram", "fes": "fes", "delta-f": "delta_f",
        "particle-distribution": "particle_distribution"}


def kind_of(kind, d):
    if kind.endswith("*"):
        return kind[:-1] if d == 1 else kind[:-1] + "s"
    return kind


def convert(kind, text):
    if kind == "float":
        return float(text)
    if kind == "int":
        return int(text)
    if kind == "str":
        return text.strip()
    if kind == "bool":
        return {"1": True, "yes": True, "true": True, "on": True, "0": False, "no": False, "false": False, "off": False}[text.lower()]
    f = float if kind == "floats" else int
    return [f(x) for x in text.split(",")]


def satisfies(cond, val):
    vals = val if isinstance(val, list) else [val]
    if cond == POS:
        return all(x > 0 for x in vals)
    if cond == NONNEG:
        return all(x >= 0 for x in vals)
    if cond == DIM:
        return all(1 <= x <= 3 for x in vals)
    return True
