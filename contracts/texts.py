"""Arbitrary texts of an input file: contract of configparser's SectionProxy.

A text is an uninterpreted value; whether it converts to a number / truth value, to which,
and how it splits at commas are uninterpreted functions of it."""
from .common import *

ISF, FV = z3.Function("is_float", I, B), z3.Function("float_value", I, R)
ISI, IV = z3.Function("is_int", I, B), z3.Function("int_value", I, I)
ISB, BV = z3.Function("is_bool", I, B), z3.Function("bool_value", I, B)
NP_, PIECE = z3.Function("n_pieces", I, I), z3.Function("piece", I, I, I)
WORDS = {}


def word(w):
    """id of a literal text"""
    if w not in WORDS:
        WORDS[w] = len(WORDS) + 1
    return z3.IntVal(-WORDS[w])


class Text(str):
    def __new__(cls, t):
        s = str.__new__(cls, "<text>")
        s.t = z3.Const(t, I) if isinstance(t, str) else t
        return s

    def facts(self):
        CTX.fact(z3.Implies(ISI(self.t), z3.And(ISF(self.t), FV(self.t) == z3.ToReal(IV(self.t)))))

    def sym_float(self):
        self.facts()
        if not CTX.branch(ISF(self.t)):
            raise ValueError("could not convert string to float")
        return wrap(FV(self.t))

    def sym_int(self):
        self.facts()
        if not CTX.branch(ISI(self.t)):
            raise ValueError("invalid literal for int()")
        return wrap(IV(self.t))

    def boolean(self):
        if not CTX.branch(ISB(self.t)):
            raise ValueError("Not a boolean")
        return wrap(BV(self.t))

    def split(self, sep=None, maxsplit=-1):
        if sep != "," or maxsplit != -1:
            raise Unsupported("split of a text")
        n = wrap(NP_(self.t))
        CTX.fact(NP_(self.t) >= 1)
        return SList.of(n, lambda j: Text(PIECE(self.t, tr(j))))

    def strip(self, *a):
        if a:
            raise Unsupported("strip")
        return self

    def same(self, o):
        if isinstance(o, Text):
            return self.t == o.t
        if isinstance(o, str):
            return self.t == word(str(o))
        return z3.BoolVal(False)

    def __eq__(self, o):
        return wrap(z3.simplify(self.same(o)))

    def __ne__(self, o):
        return wrap(z3.simplify(z3.Not(self.same(o))))

    def __hash__(self):
        raise Unsupported("hash of an arbitrary text")

    def __bool__(self):
        return not bool(self == "")

    def __len__(self):
        raise Unsupported("length of an arbitrary text")

    def __iter__(self):
        raise Unsupported("characters of an arbitrary text")

    def __contains__(self, o):
        raise Unsupported("search in an arbitrary text")

    def __getitem__(self, o):
        raise Unsupported("characters of an arbitrary text")

    def sym_subst(self, subs):
        return Text(z3.substitute(self.t, *subs))

    def __format__(self, spec):
        return "<text>"

    def __getattribute__(self, name):
        if name in _STR and name not in Text.__dict__:
            raise Unsupported(f"method {name} of an arbitrary text")
        return object.__getattribute__(self, name)


_STR = {n for n in dir(str) if not n.startswith("_")}


class Section:
    """configparser.SectionProxy without interpolation; keys are case insensitive"""

    def __init__(self, name, entries):
        self.name = name
        self.entries = dict(entries)   # key -> Text or None (absent) or (condition, Text)
        self._birth = CTX.next_serial()

    def lookup(self, key):
        if not isinstance(key, str) or type(key) is not str:
            if not isinstance(key, str):
                raise Unsupported("option name")
        v = self.entries.get(str(key).lower())
        if isinstance(v, tuple):
            v = v[1] if CTX.branch(v[0]) else None
        return v

    def keys(self):
        return SList([k for k in self.entries if self.lookup(k) is not None])

    def items(self):
        return SList([(k, self.lookup(k)) for k in self.keys()])

    def __iter__(self):
        return iter(list(self.keys()))

    def __contains__(self, key):
        return self.lookup(key) is not None

    def __getitem__(self, key):
        v = self.lookup(key)
        if v is None:
            raise KeyError(key)
        return v

    def get(self, option, fallback=None, **k):
        v = self.lookup(option)
        return fallback if v is None else v

    def _get(self, conv, option, fallback):
        v = self.lookup(option)
        return fallback if v is None else conv(v)

    def getfloat(self, option, fallback=None, **k):
        return self._get(lambda v: LANG_FLOAT(v), option, fallback)

    def getint(self, option, fallback=None, **k):
        return self._get(lambda v: LANG_INT(v), option, fallback)

    def getboolean(self, option, fallback=None, **k):
        return self._get(lambda v: v.boolean(), option, fallback)


from engine.lang import FLOAT as LANG_FLOAT, INT as LANG_INT, BOOL as LANG_BOOL, LIST as LANG_LIST  # noqa: E402


def raises_any(fn):
    """(exception of the code or None, value); failures of the engine itself count as unsupported"""
    try:
        return None, fn()
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        f, name = tb.tb_frame.f_code.co_filename, tb.tb_frame.f_code.co_name
        if "/engine/" in f and name not in ("float_conv", "int_conv"):
            raise Unsupported(f"engine: {type(e).__name__}: {e}")
        return e, None


class Parsed:
    """configparser.ConfigParser after reading the file"""

    def __init__(self, sections, args, kw):
        self.secs, self.read_ = sections, []
        if args or set(kw) - {"interpolation"}:
            raise Unsupported("options of the parser")
        self.interpolation = kw.get("interpolation", "basic")

    def read(self, f, *a, **k):
        self.read_.append(f)
        return SList([f])

    def present(self, name):
        v = self.secs.get(name)
        return v is not None and (not isinstance(v, tuple) or CTX.branch(v[0]))

    def sections(self):
        return SList([s for s in self.secs if self.present(s)])

    def has_section(self, name):
        return self.present(name)

    def __contains__(self, name):
        return self.present(name)

    def __getitem__(self, name):
        if not self.read_:
            raise Unsupported("file not read")
        if not self.present(name):
            raise KeyError(name)
        v = self.secs[name]
        return v[1] if isinstance(v, tuple) else v

    def options(self, name):
        return self[name].keys()

    def has_option(self, name, key):
        return self.present(name) and key in self[name]


def input_file(m, sections):
    """make bdld.inputparser read these sections"""
    made = []

    class Stub:
        SectionProxy = Section

        @staticmethod
        def ConfigParser(*a, **k):
            made.append(Parsed(sections, a, k))
            return made[-1]

        @staticmethod
        def RawConfigParser(*a, **k):
            k.setdefault("interpolation", None)
            made.append(Parsed(sections, a, k))
            return made[-1]
    if hasattr(m, "ConfigParser"):
        m.ConfigParser = Stub.ConfigParser
    elif hasattr(m, "configparser"):
        m.configparser = Stub
    else:
        raise Unsupported("no configparser")
    return made


# -- the declared options (documentation) -----------------------------------------------
POS, NONNEG, ANY, DIM = "positive", "nonneg", "any", "1to3"
TABLE = [
    ("ld", "timestep", "float", NONNEG, True, None), ("ld", "n_steps", "int", POS, True, None),
    ("ld", "seed", "int", ANY, False, None), ("ld", "kt", "float", POS, True, None),
    ("ld", "friction", "float", NONNEG, True, None),
    ("potential", "n_dim", "int", DIM, True, None), ("potential", "min", "float*", ANY, True, None),
    ("potential", "max", "float*", ANY, True, None), ("potential", "coeffs", "floats", ANY, False, None),
    ("potential", "coeffs-file", "str", ANY, True, None), ("potential", "scaling-factor", "float", ANY, False, None),
    ("particles", "number", "int", POS, True, None), ("particles", "mass", "float", POS, False, 1.0),
    ("particles", "seed", "int", ANY, False, None), ("particles", "fractions", "floats", ANY, True, None),
    ("particles", "pos1", "floats", ANY, True, None), ("particles", "pos2", "floats", ANY, True, None),
    ("birth-death", "stride", "int", POS, True, None), ("birth-death", "kernel-bandwidth", "float*", POS, True, None),
    ("birth-death", "exponential-factor", "float", POS, False, None),
    ("birth-death", "recalculate-probabilities", "bool", ANY, False, False),
    ("birth-death", "stats-stride", "int", POS, False, None), ("birth-death", "stats-filename", "str", ANY, False, None),
    ("birth-death", "seed", "int", ANY, False, None),
    ("trajectories", "filename", "str", ANY, False, None), ("trajectories", "stride", "int", POS, False, None),
    ("trajectories", "momentum", "bool", ANY, False, None), ("trajectories", "write-stride", "int", POS, False, None),
    ("trajectories", "fmt", "str", ANY, False, None),
    ("histogram", "stride", "int", POS, False, None), ("histogram", "reset", "ints", POS, False, None),
    ("histogram", "filename", "str", ANY, False, None), ("histogram", "write-stride", "int", POS, False, None),
    ("histogram", "fmt", "str", ANY, False, None), ("histogram", "min", "float*", ANY, True, None),
    ("histogram", "max", "float*", ANY, True, None), ("histogram", "bins", "int*", POS, True, None),
    ("fes", "kt", "float", POS, True, None), ("fes", "stride", "int", POS, False, None),
    ("fes", "filename", "str", ANY, False, None), ("fes", "write-stride", "int", POS, False, None),
    ("fes", "fmt", "str", ANY, False, None), ("fes", "plot-domain", "floats", ANY, False, None),
    ("fes", "plot-filename", "str", ANY, False, None), ("fes", "plot-title", "str", ANY, False, None),
    ("fes", "plot-stride", "int", ANY, False, None),
] + [(s, o, k, c, r, None) for s in ("delta-f", "particle-distribution") for o, k, c, r in (
    ("stride", "int", POS, False), ("filename", "str", ANY, False), ("write-stride", "int", POS, False), ("fmt", "str", ANY, False),
    ("state1-min", "floats", ANY, True), ("state1-max", "floats", ANY, True), ("state2-min", "floats", ANY, True), ("state2-max", "floats", ANY, True))]
ATTR = {"ld": "ld", "potential": "potential", "particles": "particles", "birth-death": "birth_death",
        "trajectories": "trajectories", "histogram": "histogram", "fes": "fes", "delta-f": "delta_f",
        "particle-distribution": "particle_distribution"}
REQUIRED = ("ld", "potential", "particles")


def kind_of(kind, d):
    if kind.endswith("*"):
        return kind[:-1] if d == 1 else kind[:-1] + "s"
    return kind


def table(d, ld="bussi-parinello", dist="fractions-pos"):
    """options of an input file for d in 1, 2, 3, 'mb'"""
    for sec, opt, kind, cond, req, default in TABLE:
        kind = kind_of(kind, d)
        if sec == "ld" and ld == "overdamped" and opt in ("kt", "friction"):
            continue
        if sec == "potential":
            if d == "mb" and opt not in ("scaling-factor", "n_dim"):
                continue
            if d != "mb" and opt == "scaling-factor" or d == 1 and opt == "coeffs-file" or d != 1 and opt == "coeffs":
                continue
            if d == "mb" and opt == "n_dim":
                req, default = False, 2
        if sec == "particles" and (opt.startswith("pos") and dist == "random-global" or opt == "fractions" and dist != "fractions-pos"):
            continue
        yield sec, opt, kind, cond, req, default


def satisfies(kind, cond, t):
    """z3: the converted value meets the declared condition"""
    def one(v):
        return {POS: v > 0, NONNEG: v >= 0, DIM: z3.And(v >= 1, v <= 3), ANY: z3.BoolVal(True)}[cond]
    if kind in ("float", "int"):
        return one((FV if kind == "float" else IV)(t))
    if kind in ("floats", "ints"):
        j = z3.Const("jc", I)
        f = FV if kind == "floats" else IV
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < NP_(t)), one(f(PIECE(t, j)))))
    return z3.BoolVal(True)


def converts(kind, t):
    """the text has a value of the kind"""
    if kind == "str":
        return z3.BoolVal(True)
    f = {"float": ISF, "int": ISI, "bool": ISB, "floats": ISF, "ints": ISI}[kind]
    if kind in ("floats", "ints"):
        j = z3.Const("jc", I)
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < NP_(t)), f(PIECE(t, j))))
    return f(t)


def valid_file(d, ld="bussi-parinello", dist="fractions-pos", optional=True, leave=None, absent=()):
    """sections with valid texts for every declared option except `leave` = (section, option)"""
    secs = {s: Section(s, {}) for s in ATTR if s not in absent}
    if "ld" in secs:
        secs["ld"].entries["type"] = Text(word(ld))
    if "potential" in secs:
        secs["potential"].entries["type"] = Text(word("mueller-brown" if d == "mb" else "polynomial"))
    if "particles" in secs:
        secs["particles"].entries["initial-distribution"] = Text(word(dist))
    for sec, opt, kind, cond, req, default in table(d, ld, dist):
        if (sec, opt) == leave or sec not in secs or not req and not optional:
            continue
        t = Text(f"{sec}.{opt}")
        CTX.assume(converts(kind, t.t))
        if cond != ANY:
            CTX.assume(satisfies(kind, cond, t.t))
        if (sec, opt) == ("potential", "n_dim"):
            CTX.assume(IV(t.t) == (2 if d == "mb" else d))
        if kind in ("floats", "ints"):
            CTX.fact(NP_(t.t) >= 1)
        secs[sec].entries[opt] = t
    return secs
