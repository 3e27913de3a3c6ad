"""C16 input options are either valid and typed or rejected by name."""
from .common import *
from .texts import *

IP = "bdld/inputparser.py:"
TRUSTED = ["configparser.SectionProxy: keys/get/getint/getfloat/getboolean as documented (contract in contracts/texts.py): conversion of the text or ValueError",
           "float(text), int(text), str.split(','): uninterpreted functions of the text; ValueError if not convertible"]
ASSUMPTIONS = ["texts are arbitrary; converted numbers are real numbers (a nan never satisfies a condition of the form x > 0)",
               "1 to 4 states / positions (the names of the options are concrete)"]

KINDS = {"float": LANG_FLOAT, "int": LANG_INT, "bool": LANG_BOOL, "str": str, "floats": [LANG_FLOAT], "ints": [LANG_INT]}


def keytype(kind):
    k = KINDS[kind]
    return SList(k) if isinstance(k, list) else k


def generic_index(n, name):
    j = CTX.fresh_int(name)
    return j, z3.And(j.e >= 0, j.e < tr(n))


def check_value(label, kind, v, t):
    """v is the converted value of the text"""
    if kind == "str":
        CTX.check(f"{label}.text", v.t == t if isinstance(v, Text) else z3.BoolVal(False))
    elif kind == "bool":
        CTX.check(f"{label}.type", z3.BoolVal(isinstance(v, (bool, SymBool))))
        CTX.check(f"{label}.value", tb(v) == BV(t))
    elif kind == "float":
        CTX.check(f"{label}.type", z3.BoolVal(isinstance(v, (float, SymReal))))
        CTX.check(f"{label}.value", eq(v, wrap(FV(t))))
    elif kind == "int":
        CTX.check(f"{label}.type", z3.BoolVal(isinstance(v, (int, SymInt)) and not isinstance(v, bool)))
        CTX.check(f"{label}.value", eq(v, wrap(IV(t))))
    else:
        CTX.check(f"{label}.type", z3.BoolVal(isinstance(v, list)))
        if not isinstance(v, list):
            return
        n = v.sym_len() if hasattr(v, "sym_len") else len(v)
        CTX.check(f"{label}.number-of-values", eq(n, wrap(NP_(t))))
        j, c = generic_index(n, "j")
        CTX.assume(c)
        x = v.sym_get(j) if hasattr(v, "sym_get") else None
        f, ty = ((FV, SymReal) if kind == "floats" else (IV, SymInt))
        CTX.check(f"{label}.type-of-the-values", z3.BoolVal(isinstance(x, ty)))
        CTX.check(f"{label}.values", eq(x, wrap(f(PIECE(t, j.e)))))


def named(e, key, section):
    s = str(e)
    return z3.BoolVal(key in s and section in s)


@contract("C16", [IP + "InputOption.__init__", IP + "InputOption.parse", IP + "OptionError.__init__", IP + "Condition.__init__"],
          params=[(k, r, c) for k in KINDS for r in (False, True) for c in (False, True)])
def parse(kind, required, conditional):
    """any key, section, text, default and condition"""
    m = repo().get("bdld.inputparser")
    t = Text("t")
    here = z3.Const("given", B)
    sec = Section("section-name", {"the-key": (here, t), "other": Text("o")})
    holds = z3.Const("condition", B)
    asked = []

    def condition(v):
        asked.append(v)
        return wrap(holds)
    c = m.Condition(condition, "is not fine") if conditional else None
    default = real("default")
    o = m.InputOption("the-key", keytype(kind), required, c, default)
    ok = converts(kind, t.t)
    e, v = raises_any(lambda: o.parse(sec))
    if e is not None:
        CTX.check("only-option-errors", z3.BoolVal(type(e) is m.OptionError), {"raised": repr(e)})
        CTX.check("names-option-and-section", named(e, "the-key", "section-name"))
        bad = z3.Or(z3.And(here, z3.Not(ok)), z3.And(here, z3.Not(holds)) if conditional else False, z3.And(z3.Not(here), z3.BoolVal(required)))
        CTX.check("rejected-only-if-invalid", bad)
        return
    if v is default:
        CTX.check("default-exactly-if-absent", z3.Not(here))
        CTX.check("required-options-are-given", z3.BoolVal(not required))
        return
    CTX.check("value-only-if-given", here)
    CTX.check("convertible", ok)
    if conditional:
        CTX.check("condition-holds", holds)
        CTX.check("condition-of-the-value", z3.BoolVal(bool(asked) and all(x is v for x in asked)))
    check_value("value", kind, v, t.t)


VARIANTS = [(1, "bussi-parinello", "fractions-pos"), (2, "bussi-parinello", "random-pos"), (3, "overdamped", "random-global"), ("mb", "overdamped", "fractions-pos")]
PARSERS = [IP + "Input." + f for f in ("__init__", "parse_all", "parse_section")] + [IP + "Input.parse_" + ATTR[s] for s in ATTR] + [
    IP + "InputOption.parse", IP + "get_all_numbered_values", IP + "numbered_state_options"]


def read(m, secs):
    made = input_file(m, secs)
    e, c = raises_any(lambda: m.Input("input"))
    for p in made:
        CTX.check("texts-taken-literally", z3.BoolVal(p.interpolation is None))
        CTX.check("file", z3.BoolVal(all(f == "input" for f in p.read_)))
    return e, c


@contract("C16", PARSERS, params=[(s, o, v, full) for v in range(len(VARIANTS)) for s, o, *_ in table(*VARIANTS[v]) for full in (False, True)])
def declared(sec, opt, variant, full):
    """one option arbitrary (absent, unconvertible, violating its condition), all others valid"""
    m = repo().get("bdld.inputparser")
    var = VARIANTS[variant]
    kind, cond, req, default = [x[2:] for x in table(*var) if x[:2] == (sec, opt)][0]
    needs = {sec} | {"fes": {"histogram"}, "delta-f": {"histogram", "fes"}}.get(sec, set()) | set(REQUIRED)
    secs = valid_file(*var, optional=full, leave=(sec, opt), absent=set(ATTR) - needs)
    t, here = Text("t"), z3.Const("given", B)
    numbered = opt.startswith("state") or opt.startswith("pos")
    if numbered:
        CTX.assume(here)
    if opt == "n_dim":
        # the other options are those of this dimension
        CTX.assume(z3.Implies(z3.And(ISI(t.t)), z3.Or(IV(t.t) < 1, IV(t.t) > 3, IV(t.t) == (2 if var[0] == "mb" else var[0]))))
    secs[sec].entries[opt] = (here, t)
    ok = z3.And(converts(kind, t.t), satisfies(kind, cond, t.t))
    e, c = read(m, secs)
    if e is not None:
        CTX.check("only-option-errors", z3.BoolVal(type(e) is m.OptionError), {"raised": repr(e)})
        CTX.check("names-option-and-section", named(e, opt, sec))
        CTX.check("rejected-only-if-invalid", z3.Or(z3.And(here, z3.Not(ok)), z3.And(z3.Not(here), z3.BoolVal(req))))
        return
    got = getattr(c, ATTR[sec], None)
    CTX.check("available", z3.BoolVal(isinstance(got, dict) and opt in got))
    v = got[opt]
    if not CTX.branch(here):
        CTX.check("required-options-are-given", z3.BoolVal(not req))
        CTX.check("default", z3.BoolVal(v is default or v == default and type(v) is type(default)))
        return
    CTX.check("convertible", converts(kind, t.t))
    CTX.check("condition", satisfies(kind, cond, t.t))
    check_value("value", kind, v, t.t)


@contract("C16", PARSERS, params=list(range(len(VARIANTS))))
def all_valid(variant):
    """a valid file is accepted and every option has the value of its text"""
    m = repo().get("bdld.inputparser")
    var = VARIANTS[variant]
    secs = valid_file(*var)
    e, c = read(m, secs)
    CTX.check("accepted", z3.BoolVal(e is None), {"raised": repr(e)})
    if e is not None:
        return
    for sec, opt, kind, cond, req, default in table(*var):
        got = getattr(c, ATTR[sec], None)
        CTX.check(f"available.{sec}.{opt}", z3.BoolVal(isinstance(got, dict) and opt in got))
        check_value(f"{sec}.{opt}", kind, got[opt], secs[sec].entries[opt].t)


@contract("C16", PARSERS, params=[(v, f) for v in range(len(VARIANTS)) for f in (False, True) if (v, f) != (0, False)], tier="thorough")
@contract("C16", PARSERS, params=[(0, False)])
def sections(variant, full):
    """any combination of sections"""
    m = repo().get("bdld.inputparser")
    var = VARIANTS[variant]
    secs = valid_file(*var, optional=full)
    here = {s: z3.Const(f"has.{s}", B) for s in secs}
    made = {s: (here[s], x) for s, x in secs.items()}
    e, c = read(m, made)
    need = z3.And(*[here[s] for s in REQUIRED], z3.Implies(here["fes"], here["histogram"]), z3.Implies(here["delta-f"], here["fes"]))
    if e is not None:
        CTX.check("missing-sections-only", z3.Not(need))
        CTX.check("section-error", z3.BoolVal(type(e) is m.SectionError), {"raised": repr(e)})
        CTX.check("names-a-missing-section", z3.Or(*[z3.Not(here[s]) for s in secs if f"'{s}'" in str(e)]))
        return
    CTX.check("required-sections-given", need)
    for s in secs:
        v = getattr(c, ATTR[s], None)
        CTX.check(f"parsed-exactly-if-given.{s}", here[s] == z3.BoolVal(v is not None and bool(len(v))))


WORDS_OF = {("ld", "type"): ["bussi-parinello", "overdamped"], ("potential", "type"): ["polynomial", "mueller-brown"],
            ("potential", "boundary-condition"): ["reflective", "periodic"],
            ("particles", "initial-distribution"): ["random-global", "random-pos", "fractions-pos"]}


@contract("C16", PARSERS, params=[(s, o, v) for s, o in WORDS_OF for v in range(len(VARIANTS))])
def words(sec, opt, variant):
    """options with a fixed list of words"""
    m = repo().get("bdld.inputparser")
    var = VARIANTS[variant]
    secs = valid_file(*var)
    t, here = Text("t"), z3.Const("given", B)
    allowed = WORDS_OF[sec, opt]
    mine = {"ld": var[1], "particles": var[2], "potential": "mueller-brown" if var[0] == "mb" else "polynomial"}[sec]
    if opt != "boundary-condition":   # other options are valid for this word
        CTX.assume(z3.And(*[t.t != word(w) for w in allowed if w != mine]))
    secs[sec].entries[opt] = (here, t)
    known = z3.Or(*[t.t == word(w) for w in allowed])
    e, c = read(m, secs)
    if e is not None:
        CTX.check("only-option-errors", z3.BoolVal(type(e) is m.OptionError), {"raised": repr(e)})
        CTX.check("names-option-and-section", named(e, opt, sec))
        CTX.check("rejected-only-if-unknown", z3.Or(z3.And(here, z3.Not(known)), z3.And(z3.Not(here), z3.BoolVal(opt != "boundary-condition"))))
        return
    CTX.check("known-word", z3.Or(known, z3.Not(here)))
    got = getattr(c, ATTR[sec])[opt]
    if CTX.branch(here):
        check_value("value", "str", got, t.t)
    else:
        CTX.check("only-the-boundary-condition-is-optional", z3.BoolVal(opt == "boundary-condition" and got is None))


@contract("C16", [IP + "numbered_state_options", IP + "get_all_numbered_values", IP + "Input.parse_delta_f", IP + "Input.parse_particle_distribution"],
          params=[(s, a, b) for s in ("delta-f", "particle-distribution") for a in range(5) for b in range(5)])
def state_numbers(sec, a, b):
    m = repo().get("bdld.inputparser")
    secs = valid_file(*VARIANTS[0], optional=False)
    x = secs[sec].entries
    for k in list(x):
        if k.startswith("state"):
            del x[k]
    ts = {}
    for n, end in ((a, "min"), (b, "max")):
        for j in range(n):
            ts[f"state{j + 1}-{end}"] = t = Text(f"{j}{end}")
            CTX.assume(converts("floats", t.t))
    x.update(ts)
    e, c = read(m, secs)
    good = a == b and a > 0
    CTX.check("accepted-exactly-if-equal-and-not-zero", z3.BoolVal((e is None) == good))
    if e is not None:
        CTX.check("option-error", z3.BoolVal(type(e) is m.OptionError), {"raised": repr(e)})
        CTX.check("names-the-section", z3.BoolVal(sec in str(e)))
        return
    got = getattr(c, ATTR[sec])
    CTX.check("all-states", z3.BoolVal(sorted(k for k in got if k.startswith("state")) == sorted(ts)))
    for k, t in ts.items():
        check_value(k, "floats", got[k], t.t)


def point(name, n):
    f = z3.Function(name, I, R)
    return SList.of(n, lambda j: wrap(f(tr(j)))), f


@contract("C16", [IP + "min_max_to_ranges"], params=[(a, b) for a in (1, 2, 3) for b in (1, 2, 3)])
def box_dimensions(a, b):
    """lists of points with arbitrary dimensions"""
    m = repo().get("bdld.inputparser")
    dims = {}

    def points(n, tag):
        out = []
        for j in range(n):
            k = integer(f"dim.{tag}{j}")
            CTX.assume(k >= 1)
            p, f = point(f"{tag}{j}", k)
            dims[tag, j] = (k, f)
            out.append(p)
        return SList(out)
    e, r = raises_any(lambda: m.min_max_to_ranges(points(a, "min"), points(b, "max")))
    k0 = dims["min", 0][0]
    good = z3.And(z3.BoolVal(a == b), *[k.e == k0.e for k, f in dims.values()])
    if e is not None:
        CTX.check("rejected-with-ValueError", z3.BoolVal(isinstance(e, ValueError)), {"raised": repr(e)})
        CTX.check("rejected-only-if-inconsistent", z3.Not(good))
        return
    CTX.check("consistent", good)
    CTX.check("one-box-per-state", z3.BoolVal(len(r) == a))
    for j in range(a):
        n = r[j].sym_len() if hasattr(r[j], "sym_len") else len(r[j])
        CTX.check("one-range-per-dimension", eq(n, k0))
        i, c = generic_index(k0, "i")
        CTX.assume(c)
        lo, hi = r[j].sym_get(i)
        CTX.check("minimum", eq(lo, wrap(dims["min", j][1](i.e))))
        CTX.check("maximum", eq(hi, wrap(dims["max", j][1](i.e))))
