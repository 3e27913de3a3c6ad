import numpy as np
import boot
import gen
import inp
from inp import TABLE, ATTR, kind_of, convert, satisfies, full, base, write
from lib import case, Fail, Skip
from bdld import inputparser, main
from bdld.inputparser import Input, OptionError, SectionError, InputOption, Condition
import configparser


def parse(T, secs, path="in.ini"):
    write(path, secs)
    return T.call(Input, path)


def same(a, b):
    return type(a) is type(b) and a == b and (not isinstance(a, list) or all(type(x) is type(y) for x, y in zip(a, b)))


def names(e, opt, sec):
    return opt in str(e) and sec in str(e)


def must_reject(T, secs, opt, sec, what):
    write("in.ini", secs)
    T.n_expect += 1
    try:
        with boot.quiet():
            c = Input("in.ini")
    except OptionError as e:
        if opt is not None and not names(e, opt, sec):
            raise Fail(f"{what}: error does not name option and section: {e}")
        return
    except Exception as e:
        raise Fail(f"{what}: raises {type(e).__name__} instead of the option error: {e}")
    raise Fail(f"{what}: accepted")


GOOD = {"float": ["0.5", "3", "1e-3", " 7.25"], "int": ["3", "12", "1"], "str": ["abc", "x.dat", "My File #2.dat", "a ; b = c"],
        "bool": ["true", "no", "on", "0", "1", "False"], "floats": ["0.5,1,2", "1e-2, 3.5 ,4", "2,2,2"], "ints": ["3,4,5", "1, 2 ,2"]}
BAD = {"float": ["abc", "", "1,2", "1.0.0", "0x3", "0.5 # half", "2 ;x"], "int": ["abc", "1.5", "", "3 4", "3 # three", "1e1"], "bool": ["maybe", "2", "", "yesno"],
       "floats": ["a,b", "1;2", "", "1,,2", "1,2,", "1,2,3 # x"], "ints": ["1.5,2", "", "a", "3,,4", "1 2"]}
VIOL = {"positive": ["0", "-1", "-3", "nan", "-inf"], "nonneg": ["-1", "-2", "nan"], "1to3": ["0", "4", "-1", "5"]}


@case("options", len(TABLE) * 2, len(TABLE) * 6)
def _(T, r, i):
    sec, opt, kind, cond, req, default = TABLE[i % len(TABLE)]
    d = [1, 2, 3][(i // len(TABLE)) % 3]
    if sec == "potential" and opt in ("n_dim", "coeffs"):
        d = 1
    kind = kind_of(kind, d)
    T.given(section=sec, option=opt, kind=kind, dim=d)
    cut = lambda t: ",".join(t.split(",")[:d]) if kind in ("floats", "ints") and opt not in ("plot-domain", "reset", "coeffs") else t
    # valid values come back converted
    for t in GOOD[kind]:
        t = cut(t)
        s = full(d)
        if opt == "n_dim":
            t = "1"
        s[sec][opt] = t
        c = parse(T, s)
        got = getattr(c, ATTR[sec])[opt]
        T.expect(same(got, convert(kind, t)), f"value of {opt} in [{sec}]", text=t, got=got)
    # absent
    s = full(d)
    s[sec].pop(opt, None)
    if req:
        if opt.startswith("state"):
            must_reject(T, s, None, sec, f"missing {opt} (min and max states unequal)")
        else:
            must_reject(T, s, opt, sec, f"missing required {opt} in [{sec}]")
    else:
        got = getattr(parse(T, s), ATTR[sec])[opt]
        T.expect(same(got, default), f"default of {opt} in [{sec}]", got=got, want=default)
    # not convertible
    for t in BAD.get(kind, []):
        s = full(d)
        s[sec][opt] = t
        must_reject(T, s, opt, sec, f"unconvertible value {t!r} of {opt} in [{sec}]")
    # condition
    for t in VIOL.get(cond, []):
        s = full(d)
        if kind in ("floats", "ints"):
            for k in range(d):
                v = ["1"] * d
                v[k] = t
                s[sec][opt] = ",".join(v)
                must_reject(T, s, opt, sec, f"value {s[sec][opt]!r} violating the condition of {opt} in [{sec}]")
        else:
            s[sec][opt] = t
            must_reject(T, s, opt, sec, f"value {t!r} violating the condition of {opt} in [{sec}]")
    if cond in ("positive",) and kind == "float":
        s = full(d)
        s[sec][opt] = "0.0"
        must_reject(T, s, opt, sec, f"zero {opt} in [{sec}]")
    if cond == "nonneg":
        s = full(d)
        s[sec][opt] = "0"
        T.expect(getattr(parse(T, s), ATTR[sec])[opt] == 0, f"zero is allowed for {opt}")


@case("unknown-words", 14, 14)
def _(T, r, i):
    d = i % 3 + 1
    s = full(d)
    todo = [("ld", "type", "verlet"), ("potential", "type", "lennard-jones"), ("particles", "initial-distribution", "gauss"),
            ("potential", "boundary-condition", "absorbing"), ("potential", "boundary-condition", "Periodic "),
            ("particles", "initial-distribution", ""), ("ld", "type", "")][i % 7]
    if todo[2] == "Periodic " :
        todo = ("potential", "boundary-condition", "reflecting")
    s[todo[0]][todo[1]] = todo[2]
    T.given(section=todo[0], option=todo[1], value=todo[2])
    must_reject(T, s, todo[1], todo[0], f"unknown {todo[1]} {todo[2]!r}")
    for v in ("reflective", "periodic"):
        s = full(d)
        s["potential"]["boundary-condition"] = v
        T.expect(parse(T, s).potential["boundary-condition"] == v, "boundary condition")
    for v in ("random-global", "random-pos", "fractions-pos"):
        c = parse(T, full(d, dist=v))
        T.expect(c.particles["initial-distribution"] == v, "initial distribution")
        if v != "random-global":
            T.expect(c.particles["pos1"] == [.5] * d and c.particles["pos2"] == [-.75] * d, "positions", got=c.particles)


@case("variants", 8, 8)
def _(T, r, i):
    """approximation variants: known words accepted, unknown rejected by name"""
    from bdld.actions.birth_death import ApproxVariant as V
    from bdsim import ensemble
    key = ["approximation-variant", "correction-variant"][i % 2]
    good = {"original": V.orig, "orig": V.orig, "additive": V.add, "add": V.add, "multiplicative": V.mult, "mult": V.mult}
    for w, v in good.items():
        T.expect(T.call(V.from_str, w) == v, "variant name", word=w)
    _, ld, kt = ensemble(T, r, i, 3, 1)
    opt = {"stride": 1, "kernel-bandwidth": .4, "correction-variant": None, "approximation-variant": None,
           "exponential-factor": None, "recalculate-probabilities": False, "stats-stride": None, "stats-filename": None, "seed": None}
    opt[key] = ["additve", "none", "Original", "0"][i // 2]
    T.given(option=key, value=opt[key])
    T.rejects(lambda: main.setup_birth_death(opt, ld), OptionError, "unknown approximation variant")


@case("sections", 12, 12)
def _(T, r, i):
    d = i % 3 + 1
    for sec in ("ld", "potential", "particles"):
        s = full(d)
        del s[sec]
        write("in.ini", s)
        T.given(missing=sec)
        T.rejects(lambda: Input("in.ini"), SectionError, f"missing section [{sec}]")
    for gone, by in ((("histogram",), "fes"), (("fes",), "delta-f"), (("histogram", "fes"), "delta-f"), (("histogram",), "fes and delta-f")):
        s = full(d)
        for g in gone:
            del s[g]
        write("in.ini", s)
        T.given(missing=gone, needed_by=by)
        T.rejects(lambda: Input("in.ini"), (SectionError, OptionError), f"sections {gone} needed by {by} missing")
    s = base(d)
    c = parse(T, s)
    for k in ("birth_death", "trajectories", "histogram", "fes", "delta_f", "particle_distribution"):
        T.expect(getattr(c, k) is None, f"section {k} reported although not given")
    T.rejects(lambda: Input("nothere.ini"), FileNotFoundError, "missing file")


@case("states", 24, 100)
def _(T, r, i):
    d = i % 3 + 1
    sec = ["delta-f", "particle-distribution"][i % 2]
    v = ",".join(["0.5"] * d)
    s = full(d)
    s[sec]["state3-min"] = v
    T.given(section=sec, dim=d)
    must_reject(T, s, None, sec, "one more min than max values")
    s = full(d)
    s[sec]["state3-max"] = v
    must_reject(T, s, None, sec, "one more max than min values")
    s = full(d)
    for k in list(s[sec]):
        if k.startswith("state"):
            del s[sec][k]
    must_reject(T, s, None, sec, "no states")
    s = full(d)
    s[sec]["state3-min"], s[sec]["state3-max"] = v, ",".join(["1.5"] * d)
    c = getattr(parse(T, s), ATTR[sec])
    T.expect([c[f"state{k}-max"] for k in (1, 2, 3)] ==
             [[float(x) for x in s[sec][f"state{k}-max"].split(",")] for k in (1, 2, 3)], "numbered states in order", got=c)
    # a gap ends the numbering
    f = T.need(inputparser, "get_all_numbered_values")
    got = T.call(f, {"state1-min": 5, "state2-min": 6, "state4-min": 7, "state3-max": 1}, "state", "-min")
    T.expect(got == [5, 6], "numbered values", got=got)


@case("ranges", 40, 300)
def _(T, r, i):
    f = T.need(inputparser, "min_max_to_ranges")
    n, d = int(r.randint(1, 5)), i % 3 + 1
    lo = np.round(r.uniform(-2, 2, size=(n, d)), 2).tolist()
    hi = np.round(r.uniform(-2, 2, size=(n, d)), 2).tolist()
    T.given(min=lo, max=hi)
    got = T.call(f, lo, hi)
    want = [[(a, b) for a, b in zip(x, y)] for x, y in zip(lo, hi)]
    T.expect([[tuple(p) for p in g] for g in got] == want, "ranges of the states", got=got)
    flat = T.call(f, [x[0] for x in lo], [x[0] for x in hi])
    T.expect([[tuple(p) for p in g] for g in flat] == [[(a[0], b[0])] for a, b in zip(lo, hi)], "ranges of scalar states", got=flat)
    T.rejects(lambda: f(lo + [[0.0] * d], hi), ValueError, "more min than max points")
    T.rejects(lambda: f(lo, hi + [[0.0] * d]), ValueError, "more max than min points")
    k = int(r.randint(0, n))
    bad = [list(x) for x in hi]
    bad[k] = bad[k] + [1.0]
    T.rejects(lambda: f(lo, bad), ValueError, "min and max of different dimension", index=k)
    bad = [list(x) for x in lo]
    bad[k] = bad[k] + [1.0]
    T.rejects(lambda: f(bad, hi), ValueError, "min and max of different dimension", index=k)
    if n > 1:
        b1, b2 = [list(x) for x in lo], [list(x) for x in hi]
        b1[-1] = b1[-1] + [1.0]
        b2[-1] = b2[-1] + [1.0]
        T.rejects(lambda: f(b1, b2), ValueError, "states of different dimension")


@case("option-object", 40, 400)
def _(T, r, i):
    """InputOption.parse on arbitrary options and texts"""
    kinds = {"float": float, "int": int, "bool": bool, "str": str, "floats": [float], "ints": [int]}
    kind = list(kinds)[i % 6]
    pool = GOOD[kind] + BAD.get(kind, []) + ["-4", "0", "17", "1,2", "x y", "nan?"]
    for _ in range(12):
        text = pool[int(r.randint(0, len(pool)))]
        present = r.randint(0, 5) > 0
        comp = bool(r.randint(0, 2))
        default = [None, 99][int(r.randint(0, 2))]
        cond = [None, Condition(lambda x: x == x and (x > 2 if not isinstance(x, (list, str)) else len(x) > 1), "my description")][int(r.randint(0, 2))]
        cp = configparser.ConfigParser(interpolation=None)
        cp.read_dict({"sec": {"key": text} if present else {"other": "1"}})
        T.given(kind=kind, text=text, present=present, compulsory=comp, default=default, condition=bool(cond))
        o = T.call(InputOption, "key", kinds[kind], comp, cond, default)
        want, err = None, False
        if not present:
            err, want = comp, default
        else:
            try:
                want = convert(kind, cp["sec"]["key"])
                if cond and not cond.function(want):
                    err = True
            except (ValueError, KeyError):
                err = True
        T.n_expect += 1
        try:
            got = o.parse(cp["sec"])
        except OptionError as e:
            if not err:
                raise Fail(f"valid option rejected: {e}")
            if not names(e, "key", "sec"):
                raise Fail(f"error does not name option and section: {e}")
            continue
        except Exception as e:
            raise Fail(f"raises {type(e).__name__} instead of the option error: {e}")
        if err:
            raise Fail(f"invalid option accepted, value {got!r}")
        if not same(got, want):
            raise Fail("parsed value", got=got, want=want)


@case("setup-words", 3, 3)
def _(T, r, i):
    pot = gen.gentle(r, 1)
    if i == 0:
        T.rejects(lambda: main.setup_ld({"type": "verlet", "timestep": .1, "seed": 1, "kt": 1., "friction": 1.}, pot), OptionError, "unknown ld type")
    elif i == 1:
        T.rejects(lambda: main.setup_potential({"type": "lj", "n_dim": 1, "boundary-condition": None}), OptionError, "unknown potential")
    else:
        from bdsim import ensemble
        _, ld, kt = ensemble(T, r, i, 3, 2)
        opt = {"stride": 1, "kernel-bandwidth": [.4, .4, .4], "correction-variant": None, "approximation-variant": None,
               "exponential-factor": None, "recalculate-probabilities": False, "stats-stride": None, "stats-filename": None, "seed": None}
        T.rejects(lambda: main.setup_birth_death(opt, ld), OptionError, "bandwidths of wrong dimension")
