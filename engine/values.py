"""Engine versions of list, str and of lists of objects of symbolic length."""
import builtins
import copy as _copy
import re
import weakref

import z3

from . import core, arrays as A
from .core import CTX, Ext, SymBool, SymInt, SymNum, SymReal, Unsupported, eq, generic_eval, ite, merge, tb, tr, wrap
from .arrays import SymArray, SymSeq, Buf, Filtered, from_fn


# -- loop-carried names --------------------------------------------------------
class PoisonRead(core.Stop):
    def __init__(self, name):
        self.name = name


class Poison:
    """value of a name at the start of an iteration (unknown until asked for)"""

    def __init__(self, name, hard=False):
        object.__setattr__(self, "_pname", name)
        object.__setattr__(self, "_hard", hard)

    def _hit(self, *a, **k):
        if self._hard:
            raise Unsupported(f"'{self._pname}' is used after a loop over a symbolic sequence")
        raise PoisonRead(self._pname)

    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__iter__",):
            raise AttributeError(n)
        self._hit()


for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg pos abs lt le gt ge eq ne bool "
           "len iter contains getitem setitem delitem call and rand or ror invert xor hash index format str iadd isub imul itruediv").split():
    setattr(Poison, f"__{_n}__", Poison._hit)


# -- strings -------------------------------------------------------------------
class SymStr(str):
    """f-string with symbolic numbers: parts are literals and (number, format)"""

    @staticmethod
    def make(parts):
        out = []

        def add(p):
            if isinstance(p, SymStr):
                for x in p.parts:
                    add(x)
                return
            if not isinstance(p, str) and isinstance(p[0], int) and not isinstance(p[0], bool):
                p = format(p[0], p[1])
            if isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += str(p)
                elif p:
                    out.append(str(p))
            else:
                out.append((p[0], "") if p[1] == "d" and not isinstance(p[0], str) else p)
        for p in parts:
            add(p)
        if all(isinstance(p, str) for p in out):
            return "".join(out)
        s = str.__new__(SymStr, "".join(p if isinstance(p, str) else core.token(*p) for p in out))
        s.parts = out
        return s

    @staticmethod
    def parse(s):
        """text with placeholders of symbolic numbers (made by str(), join, format ...)"""
        if isinstance(s, SymStr) or "\u27e8" not in s:
            return s
        parts = re.split("\u27e8([0-9]+)\u27e9", s)
        return SymStr.make([core.TOKENS[int(p)] if i % 2 else p for i, p in enumerate(parts)])

    def __add__(self, o):
        o = SymStr.parse(o)
        return SymStr.make(self.parts + (o.parts if isinstance(o, SymStr) else [o]))

    def __radd__(self, o):
        return SymStr.make([SymStr.parse(o)] + self.parts)

    def subst(self, subs):
        return SymStr.make([p if isinstance(p, str) else (A.subst_val(p[0], subs), p[1]) for p in self.parts])


def str_eq(a, b):
    """z3 condition under which two engine strings are equal (None: unknown)"""
    if not isinstance(a, str) or not isinstance(b, str):
        return None
    a, b = SymStr.parse(a), SymStr.parse(b)
    pa = a.parts if isinstance(a, SymStr) else [a]
    pb = b.parts if isinstance(b, SymStr) else [b]
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], str) and isinstance(pb[0], str):
        return z3.BoolVal(pa[0] == pb[0])

    def differ(get, cut):
        x = get(pa) if pa and isinstance(get(pa), str) else ""
        y = get(pb) if pb and isinstance(get(pb), str) else ""
        n = min(len(x), len(y))
        return n > 0 and cut(x, n) != cut(y, n)
    if differ(lambda p: p[0], lambda t, n: t[:n]) or differ(lambda p: p[-1], lambda t, n: t[-n:]):
        return z3.BoolVal(False)
    if len(pa) != len(pb):
        return None
    c = []
    for x, y in zip(pa, pb):
        if isinstance(x, str) != isinstance(y, str):
            return None
        if isinstance(x, str):
            if x != y:
                return None
        else:
            if x[1] != y[1]:
                return None
            c.append(eq(x[0], y[0]))
    return z3.And(*c) if c else z3.BoolVal(True)


# -- lists ------------------------------------------------------------------------
class SList(list):
    def __init__(self, it=()):
        list.__init__(self, it)
        self._birth = CTX.next_serial()
        self.seg = None

    @staticmethod
    def symbolic(x):
        r = SList()
        fn = x.frozen_get() if hasattr(x, "frozen_get") else x.sym_get
        r.seg = [("s", x.sym_len(), fn)]
        return r

    @staticmethod
    def of(n, fn):
        r = SList()
        r.seg = [("s", n, fn)]
        return r

    def _state(self):
        return (list(list.__iter__(self)), list(self.seg) if self.seg is not None else None)

    def _set(self, st):
        list.clear(self)
        list.extend(self, st[0])
        self.seg = list(st[1]) if st[1] is not None else None

    def _note(self, kind="data"):
        st = self._state()
        CTX.note(self, kind, lambda: self._set(st))

    # reading
    def sym_len(self):
        if self.seg is None:
            return list.__len__(self)
        r = 0
        for s in self.seg:
            r = r + (len(s[1]) if s[0] == "c" else s[1])
        return r

    def __len__(self):
        if self.seg is None:
            return list.__len__(self)
        n = self.sym_len()
        if isinstance(n, int):
            return n
        c = CTX.unique_value(tr(n))
        if c is not None:
            return c
        raise Unsupported("len() of symbolic list")

    def __bool__(self):
        if self.seg is None:
            return list.__len__(self) > 0
        return bool(wrap(z3.simplify(tr(self.sym_len()) != 0)))

    def sym_get(self, i):
        return self[i]

    def frozen_get(self):
        st = SList()
        st._set(self._state())
        return st.sym_get

    def __iter__(self):
        if self.seg is None:
            return list.__iter__(self)
        n = self.sym_len()
        if not isinstance(n, int):
            n = CTX.unique_value(tr(n))
        if n is None:
            raise Unsupported("native iteration over a symbolic list")
        return iter([self[i] for i in range(n)])

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.seg is None:
                if any(isinstance(x, SymInt) for x in (i.start, i.stop, i.step)):
                    i = slice(*[None if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
                return SList(list.__getitem__(self, i))
            st, ln, sp = A.norm_slice(i, self.sym_len())
            g = self.frozen_get()
            return SList.of(ln, lambda j: g(st + sp * j))
        if isinstance(i, (SymReal, float)):
            raise TypeError("list indices must be integers or slices")
        if self.seg is None:
            if isinstance(i, SymInt):
                c = CTX.unique_value(i.e)
                if c is None:
                    n = list.__len__(self)
                    j = A.norm_index(i, n)
                    items = list(list.__iter__(self))
                    if all(isinstance(x, (int, float, SymNum, tuple)) for x in items):
                        from .npshim import pick
                        try:
                            return pick(items, j)
                        except Unsupported:
                            pass
                    for q in range(n - 1):
                        if bool(wrap(z3.simplify(tr(j) == q))):
                            return items[q]
                    return items[n - 1]
                i = c
            return list.__getitem__(self, i)
        i = A.norm_index(i, self.sym_len())
        off = 0
        for q, s in enumerate(self.seg):
            ln = len(s[1]) if s[0] == "c" else s[1]
            last = q == len(self.seg) - 1
            if last or bool(wrap(z3.simplify(tr(i) < tr(off + ln))) if not (isinstance(i, int) and isinstance(off + ln, int)) else i < off + ln):
                j = i - off
                if s[0] == "s":
                    return s[2](j)
                return SList(s[1])[j]
            off = off + ln
        raise IndexError("list index out of range")

    def sym_contains(self, x):
        if self.seg is None:
            from .lang import Lang
            return Lang.contains(x, tuple(list.__iter__(self)))
        r = []
        for s in self.seg:
            if s[0] == "c":
                from .lang import Lang
                r.append(tb(Lang.contains(x, tuple(s[1]))))
            else:
                q = A.quant_any((s[1],), lambda idx: wrap(eq(s[2](idx[0]), x)))
                r.append(tb(q))
        return wrap(z3.simplify(z3.Or(*r)) if r else z3.BoolVal(False))

    def __contains__(self, x):
        return bool(self.sym_contains(x))

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, SList) and (self.seg is not None or o.seg is not None):
            if not A.dim_eq_branch(self.sym_len(), o.sym_len()):
                return False
            raise Unsupported("comparison of symbolic lists")
        if not isinstance(o, list):
            return False
        a, b = list(list.__iter__(self)), list(o)
        if len(a) != len(b):
            return False
        r = z3.BoolVal(True)
        for x, y in zip(a, b):
            if x is y:
                continue
            if isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return False
                c = SList(x) == SList(y)
            else:
                c = x == y
            if c is False or c is NotImplemented:
                return False
            if c is True:
                continue
            if isinstance(c, SymArray):
                return bool(c)
            r = z3.And(r, tb(c))
        return wrap(z3.simplify(r))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None

    def __add__(self, o):
        if not isinstance(o, list):
            if isinstance(o, (SymArray,)):
                return NotImplemented
            raise TypeError("can only concatenate list to list")
        if self.seg is None and getattr(o, "seg", None) is None:
            return SList(list(list.__iter__(self)) + list(o))
        r = SList()
        r.seg = self._segs() + (o._segs() if isinstance(o, SList) else [("c", list(o))])
        return r

    def __radd__(self, o):
        return SList(o) + self

    def _segs(self):
        return list(self.seg) if self.seg is not None else [("c", list(list.__iter__(self)))]

    def __mul__(self, n):
        if isinstance(n, int):
            return SList(list(self) * n)
        if isinstance(n, SymInt):
            c = CTX.unique_value(n.e)
            if c is not None:
                return SList(list(self) * c)
            if self.seg is None and list.__len__(self) == 1:
                x = list.__getitem__(self, 0)
                return SList.of(ite(n > 0, n, 0) if not CTX.known(n.e >= 0) else n, lambda i: x)
            raise Unsupported("repetition of list")
        raise TypeError("can't multiply sequence by non-int")

    __rmul__ = __mul__

    # writing
    def append(self, x):
        self._note(("append", x))
        if self.seg is not None:
            self.seg = self.seg + [("c", [x])]
        else:
            list.append(self, x)

    def extend(self, xs):
        self._note()
        if getattr(xs, "seg", None) is not None or (hasattr(xs, "sym_len") and not isinstance(xs.sym_len(), int)):
            o = xs if isinstance(xs, SList) else SList.symbolic(xs)
            self.seg = self._segs() + o._segs()
            list.clear(self)
        elif self.seg is not None:
            self.seg = self.seg + [("c", list(xs))]
        else:
            list.extend(self, list(xs))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __setitem__(self, i, v):
        self._note()
        if self.seg is not None:
            j = A.norm_index(i, self.sym_len())
            g = self.frozen_get()
            n = self.sym_len()
            self.seg = [("s", n, lambda q: v if bool(wrap(z3.simplify(tr(q) == tr(j)))) else g(q))]
            return
        if isinstance(i, SymInt):
            n = list.__len__(self)
            i = A.norm_index(i, n)
            c = CTX.unique_value(i.e)
            if c is None:
                for q in range(n):
                    if q == n - 1 or bool(wrap(z3.simplify(tr(i) == q))):
                        c = q
                        break
            i = c
        list.__setitem__(self, i, v)

    def __delitem__(self, i):
        if self.seg is not None:
            raise Unsupported("del of symbolic list element")
        self._note()
        list.__delitem__(self, i.__index__() if isinstance(i, SymInt) else i)

    def insert(self, i, v):
        if self.seg is not None:
            raise Unsupported("insert into symbolic list")
        self._note()
        list.insert(self, i.__index__() if isinstance(i, SymInt) else i, v)

    def pop(self, i=-1):
        if self.seg is not None:
            raise Unsupported("pop of symbolic list")
        self._note()
        return list.pop(self, i)

    def clear(self):
        self._note()
        list.clear(self)
        self.seg = None

    def remove(self, x):
        raise Unsupported("list.remove")

    def sort(self, **k):
        raise Unsupported("list.sort")

    def reverse(self):
        self._note()
        if self.seg is not None:
            raise Unsupported("reverse of symbolic list")
        list.reverse(self)

    def copy(self):
        r = SList()
        r._set(self._state())
        return r

    def index(self, x, *a):
        raise Unsupported("list.index")

    def count(self, x):
        raise Unsupported("list.count")

    def __repr__(self):
        return list.__repr__(self) if self.seg is None else "<symbolic list>"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


# -- lists of objects ----------------------------------------------------------------
class ObjList(list):
    """list of symbolic length n of objects of one class.

    Every attribute is stored as one buffer over the index, so Element(i) is the
    object at i.  `list` is a base class only for isinstance()."""

    def __init__(self, n, cls, fields):
        list.__init__(self)
        self._birth = CTX.next_serial()
        self.n, self.cls = n, cls
        self.fields = fields  # name -> Buf, (n,) or (n, d)
        self.version = 0
        self.ops = []  # what made version v + 1 of version v: (index, attributes before) | None
        for f, b in fields.items():
            b.owner = (self, f)
            b.views = []

    @staticmethod
    def make(n, cls, proto, tag=True):
        """all attributes arbitrary; proto: name -> None (number) | d (vector)"""
        fields = {}
        nm = CTX.fresh_name("P")
        for f, d in proto.items():
            if d is None:
                fn = z3.Function(f"{nm}.{f}", core.IntS, core.RealS)
                fields[f] = Buf((n,), (lambda fn: lambda idx: wrap(fn(tr(idx[0]))))(fn))
            else:
                fn = z3.Function(f"{nm}.{f}", core.IntS, core.IntS, core.RealS)
                fields[f] = Buf((n, d), (lambda fn: lambda idx: wrap(fn(tr(idx[0]), tr(idx[1]))))(fn))
        if tag:
            fn = z3.Function(f"{nm}.tag__", core.IntS, core.RealS)
            fields["tag__"] = Buf((n,), lambda idx: wrap(fn(tr(idx[0]))))
        return ObjList(n, cls, fields)

    def snapshot(self):
        return {f: b.getter() for f, b in self.fields.items()}

    def sym_len(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("len() of symbolic list outside the shim")

    def __bool__(self):
        return bool(wrap(z3.simplify(tr(self.n) != 0))) if not isinstance(self.n, int) else self.n > 0

    def sym_get(self, i):
        return Element(self, i)

    def frozen_get(self):
        """the objects which are in the list now"""
        v = self.version
        return lambda i: Element(self, i, v)

    def changed(self, op=None):
        del self.ops[self.version:]
        self.ops.append(op)
        self.version += 1

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([Element(self, i) for i in range(self.n)])
        raise Unsupported("native iteration over a symbolic list")

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, ln, sp = A.norm_slice(i, self.n)
            g = self.frozen_get()
            return SList.of(ln, lambda j: g(st + sp * j))
        return Element(self, A.norm_index(i, self.n))

    def __contains__(self, x):
        raise Unsupported("membership in object list")

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of object lists")

    __hash__ = None

    def _note(self, kind):
        st = (self.n, self.version, {f: (b, b.state()) for f, b in self.fields.items()})

        def undo():
            self.n, self.version = st[0], st[1]
            self.fields = {f: b for f, (b, _) in st[2].items()}
            for f, (b, s) in st[2].items():
                b.set_state(s)
        CTX.note(self, kind, undo)

    def _values(self, obj):
        """name -> getter of the attributes of an object about to be stored"""
        if isinstance(obj, Element):
            if obj._chk() is not None:
                raise Unsupported("object taken from a list before it was changed is stored")
            CTX.ghost["aliased"] = "the same object stored twice"
            obj._chk()
            return {f: (lambda g, i: lambda idx: g((i,) + tuple(idx)))(b.getter(), obj._i) for f, b in obj._lst.fields.items()}
        if isinstance(obj, ObjValue):
            if obj._stored:
                CTX.ghost["aliased"] = "the same object stored twice"
            obj._stored = True
            out = {}
            for f, v in obj._vals.items():
                out[f] = self._getter(f, v)
            return out
        if getattr(obj, "_frozen_obj", False):
            CTX.ghost["aliased"] = "the same object stored twice"
        if not hasattr(obj, "__dict__"):
            raise Unsupported(f"object of type {type(obj).__name__} stored in an object list")
        out = {}
        for f, v in obj.__dict__.items():
            if f.startswith("_verif") or f == "_frozen_obj":
                continue
            out[f] = self._getter(f, v)
        if "tag__" in self.fields and "tag__" not in out:
            t = CTX.fresh_real("newtag")
            out["tag__"] = lambda idx: t
        if set(out) != set(self.fields):
            raise Unsupported(f"attributes {sorted(set(out) ^ set(self.fields))} differ between the objects of a list")
        builtins.setattr(obj, "_frozen_obj", True)
        return out

    def _getter(self, f, v):
        b = self.fields.get(f)
        if b is None:
            raise Unsupported(f"attribute {f} unknown in object list")
        if isinstance(v, SymArray):
            own(v, b)
            d = v.shape[0] if v.ndim == 1 else None
            if d is None or len(b.shape) != 2 or not A.dim_eq_branch(d, b.shape[1]):
                raise Unsupported(f"attribute {f} changes its shape")
            return v.getter()
        if isinstance(v, (int, float, SymNum, core.Fraction)) and len(b.shape) == 1:
            return lambda idx: v
        raise Unsupported(f"attribute {f} of type {type(v).__name__}")

    def __setitem__(self, i, obj):
        if isinstance(i, slice):
            raise Unsupported("slice assignment to object list")
        i = A.norm_index(i, self.n)
        self._note(("setitem", i))
        vals = self._values(obj)
        before = self.snapshot()
        detach(self)
        for f, b in self.fields.items():
            g = vals[f]
            b.write(lambda idx: A.ieq(i, idx[0]), (lambda g: lambda idx: g(tuple(idx[1:])))(g))
        self.changed((i, before))

    def _restructure(self, n, fn):
        """fn(name, old getter) -> new element function"""
        detach(self)
        new = {}
        for f, b in self.fields.items():
            nb = Buf((n,) + b.shape[1:], fn(f, b.getter()), dtype=b.dtype)
            nb.owner, nb.views = (self, f), []
            new[f] = nb
        self.n, self.fields = n, new
        self.changed()

    def append(self, obj):
        self._note(("append", obj))
        vals = self._values(obj)
        n = self.n
        self._restructure(n + 1, lambda f, g: lambda idx: ite(A.ieq(idx[0], n), vals[f](tuple(idx[1:])), g(idx)))

    def insert(self, i, obj):
        self._note(("insert", i))
        n = self.n
        if i < 0:
            i = i + n
            if i < 0:
                i = 0
        elif i > n:
            i = n
        vals = self._values(obj)

        def fn(f, g):
            def h(idx):
                q = idx[0]
                lo = g(tuple(idx))
                hi = g((q - 1,) + tuple(idx[1:]))
                return ite(z3.simplify(tr(q) < tr(i)), lo, ite(A.ieq(q, i), vals[f](tuple(idx[1:])), hi))
            return h
        self._restructure(n + 1, fn)

    def __delitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice deletion")
        i = A.norm_index(i, self.n)
        self._note(("del", i))

        def fn(f, g):
            def h(idx):
                q = idx[0]
                return ite(z3.simplify(tr(q) < tr(i)), g(tuple(idx)), g((q + 1,) + tuple(idx[1:])))
            return h
        self._restructure(self.n - 1, fn)

    def pop(self, i=-1):
        i = A.norm_index(i, self.n)
        e = Element(self, i)
        v = ObjValue.of(e)
        del self[i]
        return v

    def _no(self, *a, **k):
        raise Unsupported("operation on object list")

    extend = remove = sort = reverse = clear = copy = index = count = __iadd__ = __add__ = __mul__ = _no

    def __repr__(self):
        return f"<{self.n} {self.cls.__name__}>"

    __str__ = __repr__


def own(v, b):
    """array object v becomes the value of an attribute"""
    if v.buf is not b and v.buf.owner is not None:
        CTX.ghost["aliased"] = "an array is shared between objects"
    elif v.buf is b:
        CTX.ghost["aliased"] = "an array is shared between objects"
    else:
        v.buf.owner = ("stored", b)


def detach(lst):
    """arrays taken from attributes of the list become independent of it"""
    for b in lst.fields.values():
        for r in b.views:
            v = r()
            if v is not None and v.buf is b:
                v.buf = StaleBuf(b)
        b.views = []


class StaleBuf(Buf):
    def __init__(self, b):
        Buf.__init__(self, b.shape, lambda idx: 0.0, cells={}, dtype=b.dtype)

    def getter(self):
        raise Unsupported("use of an array taken from an object before the list was changed")

    def get(self, idx):
        self.getter()

    def write(self, c, v):
        self.getter()


class Element:
    """the object lst[i]"""

    def __init__(self, lst, i, ver=None):
        d = self.__dict__
        d["_lst"], d["_i"], d["_ver"] = lst, i, lst.version if ver is None else ver

    @property
    def cls(self):
        return self._lst.cls

    def _chk(self):
        """the object is (still) the one at its index: None, otherwise the removed object"""
        d, lst = self.__dict__, self.__dict__["_lst"]
        while d["_ver"] != lst.version and "_gone" not in d:
            op = lst.ops[d["_ver"]]
            if op is None:
                raise Unsupported("use of an object after its list was changed")
            if CTX.branch(tb(A.ieq(op[0], d["_i"]))):
                vals = {}
                for f, b in lst.fields.items():
                    g, i = op[1][f], d["_i"]
                    vals[f] = g((i,)) if len(b.shape) == 1 else from_fn((b.shape[1],), lambda q, g=g, i=i: g((i, q[0])))
                d["_gone"] = ObjValue(lst.cls, vals)
            else:
                d["_ver"] += 1
        return d.get("_gone")

    def __getattr__(self, name):
        lst = self.__dict__["_lst"]
        b = lst.fields.get(name)
        if b is None:
            f = getattr(lst.cls, name, None)
            if f is None:
                raise AttributeError(name)
            if isinstance(f, property):
                return f.fget(self)
            return f.__get__(self, lst.cls) if hasattr(f, "__get__") and callable(f) else f
        gone = self._chk()
        if gone is not None:
            return getattr(gone, name)
        if len(b.shape) == 1:
            return b.get((self._i,))
        v = SymArray(b, [("fix", self._i), ("aff", 0, 0, 1)], (b.shape[1],))
        b.views.append(weakref.ref(v))
        return v

    def set(self, name, val):
        gone = self._chk()
        if gone is not None:
            return gone.set(name, val)
        lst, i = self._lst, self._i
        b = lst.fields.get(name)
        if b is None:
            raise Unsupported(f"new attribute {name}")
        if isinstance(val, SymArray) and val.buf is b and len(val.axes) == 2 and val.axes[0][0] == "fix" and \
                A.same(val.axes[0][1], i) and val.axes[1] == ("aff", 0, 0, 1):
            return  # p.x += ... on the array itself: value already written through
        g = lst._getter(name, val)
        # the array object is replaced: arrays taken from it earlier keep the old contents
        for r in b.views:
            v = r()
            if v is not None and v.buf is b:
                v.buf = StaleBuf(b)
        b.views = []
        b.write(lambda idx: A.ieq(i, idx[0]), lambda idx: g(tuple(idx[1:])))

    def __setattr__(self, name, val):
        self.set(name, val)

    def __eq__(self, o):
        if isinstance(o, Element) and o._lst is self._lst:
            return wrap(A.ieq(self._i, o._i))
        raise Unsupported("comparison of objects")

    __hash__ = None

    def subst(self, subs):
        e = Element(self._lst, A.subst_val(self._i, subs))
        e.__dict__["_ver"] = self._ver
        return e

    def __repr__(self):
        return f"<{self._lst!r}[{self._i}]>"


class ObjValue:
    """object copied out of an ObjList"""

    def __init__(self, cls, vals):
        d = self.__dict__
        d["cls"], d["_vals"], d["_stored"], d["_birth"] = cls, vals, False, CTX.next_serial()

    @staticmethod
    def of(e, deep=True):
        vals = {}
        for f, b in e._lst.fields.items():
            if len(b.shape) == 1:
                vals[f] = getattr(e, f)
            else:
                v = getattr(e, f)
                vals[f] = v.copy() if deep else v
        return ObjValue(e._lst.cls, vals)

    def __getattr__(self, name):
        v = self.__dict__["_vals"].get(name, Poison)
        if v is Poison:
            f = getattr(self.cls, name, None)
            if f is None:
                raise AttributeError(name)
            return f.__get__(self, self.cls)
        return v

    def set(self, name, val):
        if self._stored:
            raise Unsupported("write to an object after it was stored in a symbolic list")
        old = self._vals.get(name)
        CTX.note(self, ("attr", name), lambda: self._vals.__setitem__(name, old))
        self._vals[name] = val

    def __setattr__(self, n, v):
        if n == "_stored":
            self.__dict__[n] = v
        else:
            self.set(n, v)


def shim_deepcopy(x, memo=None):
    if memo is not None:  # copies made with the same memo are shared
        if not isinstance(x, (Element, ObjValue)):
            raise Unsupported("deepcopy with a memo")
        seen = memo.setdefault("copies", [])
        for src, cp in seen:
            if src is x or isinstance(src, Element) and isinstance(x, Element) and bool(src == x):
                return cp
        cp = shim_deepcopy(x)
        seen.append((x, cp))
        return cp
    if isinstance(x, Element):
        return ObjValue.of(x)
    if isinstance(x, ObjValue):
        return ObjValue(x.cls, {k: shim_deepcopy(v) for k, v in x._vals.items()})
    if isinstance(x, (SymNum, SymBool, Ext, int, float, str, type(None), bool)):
        return x
    if isinstance(x, SymArray):
        return x.copy()
    if isinstance(x, tuple):
        return tuple(shim_deepcopy(v) for v in x)
    if isinstance(x, SList):
        if x.seg is None:
            return SList([shim_deepcopy(v) for v in list.__iter__(x)])
        g = x.frozen_get()
        return SList.of(x.sym_len(), lambda i: shim_deepcopy(g(i)))
    if isinstance(x, list) and not isinstance(x, ObjList):
        return SList([shim_deepcopy(v) for v in x])
    if isinstance(x, dict):
        return type(x)((k, shim_deepcopy(v)) for k, v in x.items())
    if hasattr(x, "__deepcopy__"):
        return x.__deepcopy__({})
    if hasattr(x, "__dict__") and not isinstance(x, type) and not callable(x) and not isinstance(x, ObjList):
        y = x.__class__.__new__(x.__class__)
        CTX.born(y)
        y.__dict__.update({k: shim_deepcopy(v) for k, v in x.__dict__.items() if k != "_frozen_obj"})
        return y
    if callable(x):
        return x
    raise Unsupported(f"deepcopy of {type(x).__name__}")


def shim_copy(x):
    if isinstance(x, Element):
        return ObjValue.of(x, deep=False)
    if isinstance(x, SymArray):
        return x.copy()
    if isinstance(x, SList):
        return x.copy()
    if isinstance(x, ObjList):
        raise Unsupported("copy of object list")
    if isinstance(x, ObjValue):
        return ObjValue(x.cls, dict(x._vals))
    if isinstance(x, (SymNum, SymBool, Ext)):
        return x
    if hasattr(x, "__dict__") and not isinstance(x, type) and not callable(x):
        y = x.__class__.__new__(x.__class__)
        CTX.born(y)
        y.__dict__.update({k: v for k, v in x.__dict__.items() if k != "_frozen_obj"})
        return y
    return _copy.copy(x)


# -- instantiation of generic values ---------------------------------------------------
def occurs(k, t):
    from .nf import occurs as oc
    return oc(k, t)


def instantiate_facts(k, j):
    """facts found for the generic index k also hold for the index j"""
    j = tr(j)
    done = CTX.ghost.setdefault("inst", {})
    key = (k.get_id(), j.get_id())
    start = done.get(key, 0)
    keep = list(CTX.keep)
    done[key] = len(keep)
    for f in keep[start:]:
        if occurs(k, f):
            CTX.fact(z3.substitute(f, (k, j)))
    CTX.ghost.setdefault("inst_keep", []).append(j)


def subst_struct(v, k, j, guard, serial0):
    """value of the generic-iteration value v(k) at k := j"""
    jt = tr(j)
    if type(v) is str:
        v = SymStr.parse(v)
    if isinstance(v, (SymNum, SymBool, Ext)):
        instantiate_facts(k, j)
        return A.subst_val(v, [(k, jt)])
    if v is None or isinstance(v, (int, float, core.Fraction, type)) or (isinstance(v, str) and not isinstance(v, SymStr) and not hasattr(v, "sym_subst")):
        return v
    if hasattr(v, "sym_subst"):
        return v.sym_subst([(k, jt)])
    if isinstance(v, SymStr):
        return v.subst([(k, jt)])
    if isinstance(v, tuple):
        return tuple(subst_struct(x, k, j, guard, serial0) for x in v)
    if isinstance(v, Element):
        return v.subst([(k, jt)])
    if isinstance(v, SymArray):
        if getattr(v.buf, "_birth", 0) <= serial0 and not isinstance(v.buf, A.LazyBuf):
            axes = [("fix", A.subst_val(a[1], [(k, jt)])) if a[0] == "fix" else
                    ("aff", a[1], A.subst_val(a[2], [(k, jt)]), A.subst_val(a[3], [(k, jt)])) for a in v.axes]
            r = SymArray(v.buf, axes, [A.subst_val(s, [(k, jt)]) for s in v.shape])
            r.ro = v.ro
            if hasattr(v.buf, "views"):
                v.buf.views.append(weakref.ref(r))
            return r
        g = v.getter()
        sh = tuple(A.subst_val(s, [(k, jt)]) for s in v.shape)
        return from_fn(sh, lambda idx: at_index(lambda: g(idx), k, j, guard), v.dtype)
    if isinstance(v, SList):
        if v._birth <= serial0:
            return v
        if v.seg is None:
            return SList([subst_struct(x, k, j, guard, serial0) for x in list.__iter__(v)])
        g = v.frozen_get()
        n = A.subst_val(v.sym_len(), [(k, jt)])
        return SList.of(n, lambda i: subst_struct(g(i), k, j, guard, serial0))
    if isinstance(v, ObjValue):
        return ObjValue(v.cls, {f: subst_struct(x, k, j, guard, serial0) for f, x in v._vals.items()})
    if isinstance(v, dict) and all(isinstance(q, str) for q in v):
        return {q: subst_struct(x, k, j, guard, serial0) for q, x in v.items()}
    if getattr(v, "_birth", 1 << 60) <= serial0:
        return v
    if callable(v):
        return v
    raise Unsupported(f"value of type {type(v).__name__} in a symbolic sequence")


def at_index(thunk, k, j, guard):
    """thunk() mentions the generic index k: its value at k := j"""
    outs = generic_eval(thunk, guard)
    for c, kind, x in outs:
        if kind == "raise":
            raise Unsupported(f"exception in a symbolic element: {x!r}")
    v = merge(outs)
    instantiate_facts(k, j)
    return A.subst_val(v, [(k, tr(j))])


def _array_ite(self, c, b):
    if not isinstance(b, SymArray) or len(b.shape) != len(self.shape) or not all(A.same(x, y) for x, y in zip(self.shape, b.shape)):
        raise Unsupported("cannot merge arrays")
    f, g = self.getter(), b.getter()
    return from_fn(self.shape, lambda idx: ite(c, f(idx), g(idx)), A.join_dt([self.dtype, b.dtype]))


SymArray._ite = _array_ite
