"""Mechanical source transformation and loader.

Every run reads the modules of /repo/bdld, parses them and applies the
semantics-preserving rewrites below, so that the code that is verified is the
code that runs in CPython:

  for loops            -> engine.loops.forloop(iterable, body closure)
  comprehensions       -> engine.lang.L.listcomp / setcomp / dictcomp
  attribute / item stores and deletes -> journaled equivalents
  list displays, f-strings -> engine classes (SList, SymStr)
  bare except          -> except Exception (engine control flow passes)
  while                -> same, with an iteration limit

Dropped: docstrings, annotations are kept but unused, print() output.
"""
import ast
import builtins
import collections.abc
import hashlib
import importlib
import os
import re
import sys
import types
from fractions import Fraction

import z3

from . import core, arrays as A, npshim, values
from .core import CTX, Ext, SymBool, SymInt, SymNum, SymReal, Unsupported, ite, tb, tr, trr, wrap
from .arrays import SymArray, Filtered, SymSeq
from .values import SList, SymStr, Element, ObjList, ObjValue, Poison, subst_struct, shim_copy, shim_deepcopy

LOADED = {}
CODE = {}
REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------------------------
class Xform(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.n = 0
        self.scopes = []  # 'module' | 'class' | function info dict
        self.loopdepth = 0

    # -- scopes ---------------------------------------------------------------
    def visit_Module(self, node):
        self.scopes.append({"kind": "module", "names": set(), "pre": set()})
        node.body = self.stmts(node.body)
        self.scopes.pop()
        return node

    def visit_ClassDef(self, node):
        self.scopes.append({"kind": "class", "name": node.name})
        node.body = self.stmts(node.body)
        self.scopes.pop()
        return node

    def visit_FunctionDef(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        args = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        if node.args.vararg:
            args.add(node.args.vararg.arg)
        if node.args.kwarg:
            args.add(node.args.kwarg.arg)
        info = {"kind": "func", "args": args, "pre": set(), "outer": set(), "gen": has_yield(node)}
        for s in ast.walk(node):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                info["outer"] |= set(s.names)
        self.scopes.append(info)
        old, self.loopdepth = self.loopdepth, 0
        body = self.stmts(node.body)
        self.loopdepth = old
        self.scopes.pop()
        if info["pre"]:
            # make the names that loop bodies assign local to this function
            pre = sorted(info["pre"] - args - info["outer"])
            if pre:
                dead = ast.If(test=ast.Constant(False), body=[
                    ast.Assign(targets=[ast.Name(x, ast.Store())], value=ast.Constant(None)) for x in pre], orelse=[])
                i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
                while i < len(body) and isinstance(body[i], (ast.Global, ast.Nonlocal)):
                    i += 1
                body.insert(i, dead)
        node.body = body
        return node

    visit_AsyncFunctionDef = None

    def visit_Lambda(self, node):
        self.scopes.append({"kind": "lambda", "pre": set(), "args": set(), "outer": set(), "gen": False})
        self.generic_visit(node)
        self.scopes.pop()
        return node

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    # -- loops --------------------------------------------------------------------
    def visit_For(self, node):
        sc = next((s for s in reversed(self.scopes)), None)
        it = self.visit(node.iter)
        if sc["kind"] in ("class", "lambda") or sc.get("gen"):
            node.iter = it
            node.body = self.stmts(node.body)
            node.orelse = self.stmts(node.orelse)
            return node
        self.n += 1
        k = f"vb{self.n}__"
        assigned = assigned_names(node.body + [ast.Assign(targets=[node.target], value=ast.Constant(None))])
        glob = sc["kind"] == "module"
        outer = sc.get("outer", set())
        mine = sorted(assigned - outer)
        sc["pre"] |= set(mine)
        body = self.stmts(node.body)
        orelse = self.stmts(node.orelse)
        body = LoopCtl().do(body)
        target = self.visit(node.target)
        decl = [] if not mine else [ast.Global(mine) if glob else ast.Nonlocal(mine)]
        if outer & assigned and not glob:
            decl.append(ast.Global(sorted(outer & assigned)))
        fbody = decl + [ast.Assign(targets=[target], value=ast.Name("it__", ast.Load()))] + body
        f = func(k, ["it__"], fbody)
        g = func(k + "g", [], [ast.Return(ast.Call(attr("L", "snap"), [ast.Constant(tuple(mine))] + [
            ast.Lambda(args=noargs(), body=ast.Name(x, ast.Load())) for x in mine], []))])
        s = func(k + "s", ["v__"], decl + [
            ast.Assign(targets=[ast.Name(x, ast.Store())], value=ast.Subscript(ast.Name("v__", ast.Load()), ast.Constant(x), ast.Load()))
            for x in mine] if mine else [ast.Pass()])
        site = f"{self.modname}:{node.lineno}"
        call = ast.Call(attr("L", "forloop"), [ast.Constant(site), it, ast.Name(k, ast.Load()), ast.Name(k + "g", ast.Load()),
                                               ast.Name(k + "s", ast.Load())], [])
        res = ast.Assign(targets=[ast.Name(k + "r", ast.Store())], value=call)
        out = [f, g, s, res]
        r = ast.Name(k + "r", ast.Load())
        if LoopCtl.has_return(node.body):
            cond = ast.Compare(ast.Call(attr("L", "kind"), [r], []), [ast.Eq()], [ast.Constant("return")])
            if self.loopdepth_is_body():
                pass
            out.append(ast.If(test=cond, body=[ast.Return(ast.Call(attr("L", "retval"), [r], []))], orelse=[]))
        if orelse:
            cond = ast.Compare(ast.Call(attr("L", "kind"), [r], []), [ast.NotEq()], [ast.Constant("break")])
            out.append(ast.If(test=cond, body=orelse, orelse=[]))
        return [ast.copy_location(x, node) for x in out]

    def loopdepth_is_body(self):
        return False

    def visit_While(self, node):
        self.generic_visit_list(node)
        node.body = [ast.Expr(ast.Call(attr("L", "tick"), [ast.Constant(f"{self.modname}:{node.lineno}")], []))] + node.body
        return node

    def generic_visit_list(self, node):
        node.test = self.visit(node.test)
        node.body = self.stmts(node.body)
        node.orelse = self.stmts(node.orelse)

    def visit_ExceptHandler(self, node):
        if node.type is None:
            node.type = ast.Name("Exception", ast.Load())
        else:
            node.type = self.visit(node.type)
            if isinstance(node.type, ast.Name) and node.type.id == "BaseException":
                node.type = ast.Name("Exception", ast.Load())
        node.body = self.stmts(node.body)
        return node

    # -- expressions ------------------------------------------------------------
    def comp(self, node, kind):
        gens = node.generators
        if any(g.is_async for g in gens) or any(has_star(g.target) for g in gens) or has_walrus(node):
            return self.generic_visit(node)

        def build(i):
            g = gens[i]
            it = self.visit(g.iter)
            if i == len(gens) - 1:
                if kind == "dict":
                    inner = ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())
                else:
                    inner = self.visit(node.elt)
            else:
                inner = build(i + 1)
            fn = lam(g.target, inner)
            cond = ast.Constant(None)
            if g.ifs:
                c = [self.visit(x) for x in g.ifs]
                cond = lam(g.target, c[0] if len(c) == 1 else ast.BoolOp(ast.And(), c))
            return ast.Call(attr("L", "comp"), [it, fn, cond, ast.Constant(i == len(gens) - 1)], [])

        self.scopes.append({"kind": "lambda", "pre": set(), "args": set(), "outer": set(), "gen": False})
        r = build(0)
        self.scopes.pop()
        if kind in ("set", "dict"):
            r = ast.Call(attr("L", "to_" + kind), [r], [])
        return ast.copy_location(r, node)

    def visit_ListComp(self, node):
        return self.comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self.comp(node, "list")

    def visit_SetComp(self, node):
        return self.comp(node, "set")

    def visit_DictComp(self, node):
        return self.comp(node, "dict")

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(attr("L", "slist"), [node], []), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(attr("L", "fstr"), parts, []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(attr("L", "percent"), [node.left, node.right], []), node)
        return node

    # -- stores ------------------------------------------------------------------
    def store(self, target, value):
        if isinstance(target, ast.Attribute):
            return ast.Expr(ast.Call(attr("L", "setattr"), [self.visit(target.value), ast.Constant(mangle(self, target.attr)), value], []))
        if isinstance(target, ast.Subscript):
            return ast.Expr(ast.Call(attr("L", "setitem"), [self.visit(target.value), self.idx(target.slice), value], []))
        return None

    def idx(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.visit(x) if x is not None else ast.Constant(None)
            return ast.Call(ast.Name("slice", ast.Load()), [f(s.lower), f(s.upper), f(s.step)], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self.idx(e) for e in s.elts], ast.Load())
        return self.visit(s)

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            r = self.store(t, value)
            if r is not None:
                return ast.copy_location(r, node)
            if isinstance(t, ast.Name):
                node.value = value
                return node
        self.n += 1
        tmp = f"vt{self.n}__"
        out = [ast.Assign(targets=[ast.Name(tmp, ast.Store())], value=value)]
        for t in node.targets:
            out.extend(self.assign_to(t, ast.Name(tmp, ast.Load())))
        return [ast.copy_location(x, node) for x in out]

    def assign_to(self, t, value):
        if isinstance(t, (ast.Tuple, ast.List)):
            self.n += 1
            tmp = f"vt{self.n}__"
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                out = [ast.Assign(targets=[ast.Name(tmp, ast.Store())],
                                  value=ast.Call(attr("L", "unpack_star"), [value, ast.Constant(k), ast.Constant(len(t.elts) - k - 1)], []))]
                for i, e in enumerate(t.elts):
                    e = e.value if isinstance(e, ast.Starred) else e
                    out.extend(self.assign_to(e, ast.Subscript(ast.Name(tmp, ast.Load()), ast.Constant(i), ast.Load())))
                return out
            out = [ast.Assign(targets=[ast.Name(tmp, ast.Store())],
                              value=ast.Call(attr("L", "unpack"), [value, ast.Constant(len(t.elts))], []))]
            for i, e in enumerate(t.elts):
                out.extend(self.assign_to(e, ast.Subscript(ast.Name(tmp, ast.Load()), ast.Constant(i), ast.Load())))
            return out
        r = self.store(t, value)
        if r is not None:
            return [r]
        return [ast.Assign(targets=[t], value=value)]

    def visit_AnnAssign(self, node):
        sc = self.scopes[-1]
        if node.value is None:
            if sc["kind"] == "func" and isinstance(node.target, ast.Name):
                return ast.copy_location(ast.If(test=ast.Constant(False), body=[
                    ast.Assign(targets=[node.target], value=ast.Constant(None))], orelse=[]), node)
            return ast.copy_location(ast.Pass(), node)
        return self.visit_Assign(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    def visit_AugAssign(self, node):
        v = self.visit(node.value)
        op = ast.Constant(type(node.op).__name__)
        t = node.target
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Expr(ast.Call(attr("L", "augattr"), [self.visit(t.value), ast.Constant(mangle(self, t.attr)), op, v], [])), node)
        if isinstance(t, ast.Subscript):
            return ast.copy_location(ast.Expr(ast.Call(attr("L", "augitem"), [self.visit(t.value), self.idx(t.slice), op, v], [])), node)
        return ast.copy_location(ast.Assign(targets=[t], value=ast.Call(attr("L", "aug"), [ast.Name(t.id, ast.Load()), op, v], [])), node)

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(ast.Call(attr("L", "delitem"), [self.visit(t.value), self.idx(t.slice)], [])))
            else:
                out.append(ast.Delete([t]))
        return [ast.copy_location(x, node) for x in out]

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == "__dict__" and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(attr("L", "vars"), [node.value], []), node)
        return node

    def visit_Compare(self, node):
        # membership goes through the engine
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = ast.Call(attr("L", "contains"), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.Call(attr("L", "not_"), [r], [])
            return ast.copy_location(r, node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            r = ast.Call(attr("L", "is_"), [node.left, node.comparators[0], ast.Constant(isinstance(node.ops[0], ast.IsNot))], [])
            return ast.copy_location(r, node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(attr("L", "sdict"), [node], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(attr("L", "to_set"), [ast.Tuple(node.elts, ast.Load())], []), node)


def mangle(x, a):
    if a.startswith("__") and not a.endswith("__"):
        for s in reversed(x.scopes):
            if s["kind"] == "class":
                return "_" + s["name"].lstrip("_") + a
    return a


def attr(a, b):
    return ast.Attribute(ast.Name(a + "__", ast.Load()), b, ast.Load())


def noargs(names=()):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def func(name, args, body):
    f = ast.FunctionDef(name=name, args=noargs(args), body=body or [ast.Pass()], decorator_list=[], returns=None)
    f.type_params = []
    return f


def lam(target, body):
    """lambda __x: body with target bound"""
    if isinstance(target, ast.Name):
        return ast.Lambda(args=noargs([target.id]), body=body)
    names = []

    def flat(t, acc):
        # nested tuples -> nested lambdas
        if isinstance(t, ast.Name):
            return t.id
        return None
    elts = target.elts
    inner_names, wraps = [], []
    for i, e in enumerate(elts):
        if isinstance(e, ast.Name):
            inner_names.append(e.id)
        else:
            inner_names.append(f"n{i}__")
            wraps.append((e, f"n{i}__"))
    for e, nm in wraps:
        body = ast.Call(lam(e, body), [ast.Name(nm, ast.Load())], [])
    f = ast.Lambda(args=noargs(inner_names), body=body)
    return ast.Lambda(args=noargs(["x__"]), body=ast.Call(f, [ast.Starred(ast.Call(
        attr("L", "unpack"), [ast.Name("x__", ast.Load()), ast.Constant(len(elts))], []), ast.Load())], []))


def has_star(t):
    return any(isinstance(x, (ast.Starred, ast.Attribute, ast.Subscript)) for x in ast.walk(t))


def has_walrus(n):
    return any(isinstance(x, (ast.NamedExpr, ast.Await)) for x in ast.walk(n))


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        s = stack.pop()
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(s, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(s))
    return False


def assigned_names(body):
    out = set()

    def walk(s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
            return
        if isinstance(s, ast.Lambda):
            return
        if isinstance(s, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
            out.add(s.id)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                out.add((a.asname or a.name).split(".")[0])
        if isinstance(s, ast.ExceptHandler) and s.name:
            out.add(s.name)
        for c in ast.iter_child_nodes(s):
            walk(c)

    for s in body:
        walk(s)
    return out


class LoopCtl(ast.NodeTransformer):
    """continue/break/return of a loop body that became a function"""

    def do(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_FunctionDef(self, node):
        return node

    visit_ClassDef = visit_Lambda = visit_FunctionDef

    def visit_For(self, node):
        return node  # untransformed (generator) loops: handled natively

    def visit_While(self, node):
        # break/continue belong to the while; returns still need wrapping
        class R(ast.NodeTransformer):
            def visit_Return(s, n):
                return ret(n)

            def visit_FunctionDef(s, n):
                return n
            visit_Lambda = visit_ClassDef = visit_FunctionDef
        return R().generic_visit(node)

    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(ast.Constant(None)), node)

    def visit_Break(self, node):
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant("break")], ast.Load())), node)

    def visit_Return(self, node):
        return ret(node)

    @staticmethod
    def has_return(body):
        found = []

        def walk(s):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                return
            if isinstance(s, ast.Return):
                found.append(s)
            for c in ast.iter_child_nodes(s):
                walk(c)
        for s in body:
            walk(s)
        return bool(found)


def ret(node):
    return ast.copy_location(ast.Return(ast.Tuple([ast.Constant("return"), node.value or ast.Constant(None)], ast.Load())), node)


# ---------------------------------------------------------------------------------
import operator as _op

AUG = {"Add": _op.iadd, "Sub": _op.isub, "Mult": _op.imul, "Div": _op.itruediv, "FloorDiv": _op.ifloordiv, "Mod": _op.imod,
       "Pow": _op.ipow, "BitAnd": _op.iand, "BitOr": _op.ior, "BitXor": _op.ixor, "MatMult": _op.imatmul,
       "LShift": _op.ilshift, "RShift": _op.irshift}
MISSING = object()


def sym_length(x):
    """length of an engine sequence or None if x is a native object"""
    if hasattr(x, "sym_len"):
        return x.sym_len()
    return None


def concretise(n):
    if isinstance(n, SymInt):
        c = CTX.unique_value(n.e) if not z3.is_int_value(z3.simplify(n.e)) else z3.simplify(n.e).as_long()
        if c is not None:
            return c
    return n


class Lang:
    """run-time support of the transformed code (bound to __L)"""

    def __init__(self):
        from . import loops

        self.loops = loops

    def forloop(self, site, it, body, get, set_):
        return self.loops.forloop(site, it, body, get, set_)

    @staticmethod
    def kind(r):
        return r[0] if isinstance(r, tuple) else None

    @staticmethod
    def retval(r):
        return r[1]

    @staticmethod
    def snap(names, *fs):
        out = {}
        for n, f in zip(names, fs):
            try:
                out[n] = f()
            except NameError:
                out[n] = MISSING
        return out

    @staticmethod
    def tick(site):
        c = CTX.ghost.setdefault("ticks", {})
        c[site] = c.get(site, 0) + 1
        if c[site] > 400:
            raise Unsupported(f"while loop at {site} not bounded")

    @staticmethod
    def slist(x):
        return SList(x)

    @staticmethod
    def percent(text, args):
        a = args if isinstance(args, tuple) else (args,)
        if not isinstance(args, dict) and any(isinstance(x, SymInt) for x in a):
            n = -1

            def conv(m):
                nonlocal n
                if m.group() == "%%":
                    return "%%"
                n += 1
                return "%s" if m.group() in ("%d", "%i") and n < len(a) and isinstance(a[n], SymInt) else m.group()
            text = re.sub(r"%%|%[^a-zA-Z]*[a-zA-Z]", conv, text)
        return text % args

    @staticmethod
    def fstr(*parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                v, conv, spec = p
                if isinstance(v, (SymNum, SymBool, Ext)):
                    out.append((v, str(spec)))
                elif isinstance(v, SymStr):
                    out.extend(v.parts)
                else:
                    if conv == ord("r"):
                        v = repr(v)
                    elif conv == ord("s"):
                        v = str(v)
                    try:
                        out.append(format(v, spec))
                    except TypeError:
                        out.append(str(v))
        return SymStr.make(out)

    @staticmethod
    def unpack(v, n):
        m = sym_length(v)
        if m is not None:
            m = concretise(m)
            if not isinstance(m, int):
                if not bool(wrap(z3.simplify(tr(m) == n))):
                    raise ValueError("not enough / too many values to unpack")
                m = n
            if m != n:
                raise ValueError(f"not enough values to unpack (expected {n}, got {m})" if m < n else f"too many values to unpack (expected {n})")
            return [v.sym_get(i) for i in range(n)]
        v = list(v)
        if len(v) != n:
            raise ValueError(f"not enough values to unpack (expected {n}, got {len(v)})" if len(v) < n else f"too many values to unpack (expected {n})")
        return v

    @staticmethod
    def unpack_star(v, before, after):
        """a, *b, c = v"""
        m = sym_length(v)
        if m is not None:
            m = concretise(m)
        if m is None or isinstance(m, int):
            w = list(v) if m is None else [v.sym_get(i) for i in range(m)]
            if len(w) < before + after:
                raise ValueError(f"not enough values to unpack (expected at least {before + after}, got {len(w)})")
            n = len(w) - after
            return w[:before] + [SList(w[before:n])] + w[n:]
        if not bool(wrap(z3.simplify(tr(m) >= before + after))):
            raise ValueError(f"not enough values to unpack (expected at least {before + after})")
        if getattr(v, "filtered", None) is not None:
            raise Unsupported("starred unpacking of a filtered sequence")
        end = m - after
        from . import loops
        g = loops.item_getter(v)
        rest = SList.of(end - before, lambda i: g(i + before))
        return [g(i) for i in range(before)] + [rest] + [g(end + i) for i in range(after)]

    @staticmethod
    def vars(*a):
        if not a:
            raise Unsupported("vars() of a function")
        o = a[0]
        if isinstance(o, (Element, ObjValue)):
            return ObjDict(o)
        if isinstance(o, (type, types.ModuleType)) or not hasattr(o, "__dict__"):
            return builtins.vars(o)
        return ObjDict(o)

    @staticmethod
    def setattr(o, name, v):
        if isinstance(o, (Element, ObjValue)):
            return o.set(name, v)
        if getattr(o, "_frozen_obj", False):
            raise Unsupported("write to an object after it was stored in a symbolic list")
        d = getattr(type(o), name, None)
        if not isinstance(d, property):
            had = name in getattr(o, "__dict__", {})
            if not had and not isinstance(o, type) and not o.__dict__ and id(o) not in CTX.births:
                CTX.born(o)
            old = o.__dict__[name] if had else None

            def undo():
                if had:
                    o.__dict__[name] = old
                else:
                    o.__dict__.pop(name, None)
            CTX.note(o, ("attr", name), undo)
        builtins.setattr(o, name, v)

    @staticmethod
    def setitem(o, k, v):
        if isinstance(o, SDict):
            o[k] = v
            return
        if isinstance(o, dict):
            had = k in o
            old = o.get(k)

            def undo():
                if had:
                    o[k] = old
                else:
                    o.pop(k, None)
            CTX.note(o, ("item", k), undo)
        elif isinstance(o, list) and not isinstance(o, (SList, ObjList)):
            raise Unsupported("store into a native list")
        o[k] = v

    @staticmethod
    def delitem(o, k):
        del o[k]

    @staticmethod
    def aug(a, op, v):
        return AUG[op](a, v)

    def augattr(self, o, name, op, v):
        self.setattr(o, name, AUG[op](getattr(o, name), v))

    def augitem(self, o, k, op, v):
        self.setitem(o, k, AUG[op](o[k], v))

    @staticmethod
    def is_(a, b, neg):
        for x in (a, b):
            if isinstance(x, Poison):
                x._hit()
        if isinstance(a, Element) and isinstance(b, Element):
            r = (a == b)
        elif isinstance(a, SymBool) and isinstance(b, bool) or isinstance(b, SymBool) and isinstance(a, bool):
            raise Unsupported("identity of booleans")
        else:
            r = a is b
        return Lang.not_(r) if neg else r

    @staticmethod
    def sdict(d):
        return SDict(d)

    @staticmethod
    def not_(x):
        if isinstance(x, bool):
            return not x
        if isinstance(x, SymBool):
            return ~x
        return not x

    @staticmethod
    def contains(x, c):
        if hasattr(c, "sym_contains"):
            return c.sym_contains(x)
        if isinstance(c, SymArray):
            return A.np_any(c == x)
        if isinstance(c, (list, tuple)) or type(c).__name__ in ("dict_keys", "odict_keys"):
            r = False
            for e in list(c):
                if e is x:
                    return True
                q = (e == x)
                if q is True:
                    return True
                if q is False or q is NotImplemented:
                    continue
                if isinstance(q, SymArray):
                    q = A.np_all(q)
                r = wrap(z3.simplify(z3.Or(tb(r), tb(q))))
            return r
        return x in c

    def comp(self, it, fn, cond, last):
        n = sym_length(it)
        if n is not None:
            n = concretise(n)
        if n is None or isinstance(n, int):
            items = [it.sym_get(i) for i in range(n)] if n is not None else list(it)
            out = []
            for x in items:
                if cond is not None:
                    c = cond(x)
                    if not c:
                        continue
                v = fn(x)
                if last:
                    out.append(v)
                else:
                    m = sym_length(v)
                    if m is not None and not isinstance(m, int):
                        raise Unsupported("nested comprehension of symbolic length")
                    out.extend(v if m is None else [v.sym_get(i) for i in range(m)])
            return SList(out)
        if not last:
            raise Unsupported("nested comprehension over symbolic sequence")
        if cond is not None:
            return self.loops.filtered_comp(it, n, fn, cond)
        return self.loops.sym_comp(it, n, fn)

    @staticmethod
    def to_set(x):
        return SetT(x)

    @staticmethod
    def to_dict(x):
        return SDict(x)


def symbolic_key(k):
    if isinstance(k, tuple):
        return any(symbolic_key(x) for x in k)
    return isinstance(k, (SymNum, SymBool, Ext, SymStr)) or (isinstance(k, str) and "\u27e8" in k)


def keys_equal(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return False
        cs = [keys_equal(x, y) for x, y in zip(a, b)]
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return wrap(z3.And(*[tb(c) for c in cs])) if cs else True
    if not symbolic_key(a) and not symbolic_key(b):
        return bool(a == b)
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and isinstance(b, str)):
            return False
        c = values.str_eq(a, b)
        if c is None:
            raise Unsupported("texts as keys")
        return wrap(c)
    num = lambda x: isinstance(x, (SymNum, SymBool, Ext, int, float, Fraction))
    if num(a) and num(b):
        return wrap(core.eq(a, b))
    return False


class ObjDict(collections.abc.MutableMapping):
    """the attribute dictionary of an object"""

    def __init__(self, o):
        self.o = o

    def names(self):
        o = self.o
        if isinstance(o, Element):
            return [f for f in o._lst.fields if f != "tag__"]
        return [f for f in (o._vals if isinstance(o, ObjValue) else o.__dict__) if f not in ("_frozen_obj", "tag__")]

    def __iter__(self):
        return iter(self.names())

    def __len__(self):
        return len(self.names())

    def __getitem__(self, k):
        if k not in self.names():
            raise KeyError(k)
        return getattr(self.o, k) if isinstance(self.o, (Element, ObjValue)) else self.o.__dict__[k]

    def __setitem__(self, k, v):
        LANG.setattr(self.o, k, v)

    def __delitem__(self, k):
        raise Unsupported("attribute removed")


class SDict(dict):
    """dict with journaled updates"""

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self._birth = CTX.next_serial()

    def _note(self, slot):
        old = list(dict.items(self))

        def undo():
            dict.clear(self)
            dict.update(self, old)
        CTX.note(self, slot, undo)

    def _key(self, k):
        """the stored key equal to k (k itself if there is none); case split for symbolic keys"""
        if not symbolic_key(k) and not any(symbolic_key(q) for q in dict.keys(self)):
            return k
        for q in dict.keys(self):
            if q is k:
                return q
        for q in dict.keys(self):
            c = keys_equal(q, k)
            if c is True or (c is not False and bool(c)):
                return q
        return k

    def __contains__(self, k):
        return dict.__contains__(self, self._key(k))

    def __getitem__(self, k):
        return dict.__getitem__(self, self._key(k))

    def get(self, k, d=None):
        return dict.get(self, self._key(k), d)

    def __setitem__(self, k, v):
        k = self._key(k)
        self._note(("item", k))
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        k = self._key(k)
        self._note("data")
        dict.__delitem__(self, k)

    def update(self, *a, **k):
        for q, v in dict(*a, **k).items():
            self[q] = v

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def pop(self, k, *a):
        k = self._key(k)
        self._note("data")
        return dict.pop(self, k, *a)

    def popitem(self):
        self._note("data")
        return dict.popitem(self)

    def clear(self):
        self._note("data")
        dict.clear(self)

    def copy(self):
        return SDict(self)


class SSet(set):
    def _n(name):
        f = getattr(set, name)

        def g(self, *a):
            old = set(self)

            def undo():
                set.clear(self)
                set.update(self, old)
            CTX.note(self, "data", undo)
            return f(self, *a)
        return g

    for _m in ("add", "remove", "discard", "update", "clear", "pop"):
        locals()[_m] = _n(_m)
    del _m, _n


# -- builtins ---------------------------------------------------------------------
class _TM(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


def mk(name, real, check, conv):
    t = _TM.__new__(_TM, name, (), {"_real": real, "_check": staticmethod(check), "_conv": staticmethod(conv)})
    t.__name__ = name
    t.__qualname__ = name
    return t


def int_conv(x=0, *a):
    if a:
        return int(x, *a)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return core.sym_trunc(x)
    if isinstance(x, SymBool):
        return x.int()
    if isinstance(x, SymArray):
        if x.size == 1 or x.ndim == 0:
            return int_conv(x.at(tuple(0 for _ in x.shape)))
        raise TypeError("only length-1 arrays can be converted")
    if isinstance(x, Fraction):
        return int(x)
    if hasattr(x, "sym_int"):
        return x.sym_int()
    return int(x)


def float_conv(x=0.0):
    if isinstance(x, SymReal) or isinstance(x, Ext):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return wrap(z3.ToReal(tr(x)))
    if isinstance(x, SymArray):
        if x.size == 1 or x.ndim == 0:
            return float_conv(x.at(tuple(0 for _ in x.shape)))
        raise TypeError("only length-1 arrays can be converted")
    if hasattr(x, "sym_float"):
        return x.sym_float()
    if isinstance(x, Fraction):
        return x
    return float(x)


def bool_conv(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return wrap(z3.simplify(x.e != 0))
    n = sym_length(x)
    if n is not None and not isinstance(n, int) and not isinstance(x, SymArray):
        return wrap(tr(n) != 0)
    return bool(x)


def list_conv(x=()):
    n = sym_length(x)
    if n is not None:
        n = concretise(n)
        if not isinstance(n, int):
            return SList.symbolic(x)
        return SList([x.sym_get(i) for i in range(n)])
    return SList(x)


def tuple_conv(x=()):
    n = sym_length(x)
    if n is not None:
        n = concretise(n)
        if not isinstance(n, int):
            raise Unsupported("tuple of symbolic length")
        return tuple(x.sym_get(i) for i in range(n))
    return tuple(x)


class SymSet:
    """set with symbolic members"""

    def __init__(self, items=()):
        self._birth = CTX.next_serial()
        self.items = SList(items)
        self.items.of_set = True

    def add(self, x):
        self.items.append(x)  # an element may be listed twice

    def update(self, xs):
        for x in xs:
            self.add(x)

    def sym_contains(self, x):
        return Lang.contains(x, self.items)

    def __contains__(self, x):
        return bool(self.sym_contains(x))

    def __iter__(self):
        raise Unsupported("iteration over a set of symbolic values")

    def __len__(self):
        raise Unsupported("size of a set of symbolic values")


def SetT(x=()):
    n = sym_length(x)
    if n is not None:
        n = concretise(n)
    if n is not None and not isinstance(n, int):
        r = SymSet()
        r.items = SList.symbolic(x)
        r.items.of_set = True
        return r
    items = [x.sym_get(i) for i in range(n)] if n is not None else list(x)
    if all(isinstance(i, (str, int, float, tuple, frozenset)) or i is None for i in items) and items:
        return SSet(items)
    return SymSet(items)


INT = mk("int", int, lambda x: isinstance(x, (int, SymInt)) , int_conv)
FLOAT = mk("float", float, lambda x: isinstance(x, (float, SymReal, Fraction, Ext)), float_conv)
BOOL = mk("bool", bool, lambda x: isinstance(x, (bool, SymBool)), bool_conv)
LIST = mk("list", list, lambda x: isinstance(x, list), list_conv)
TUPLE = mk("tuple", tuple, lambda x: isinstance(x, tuple), tuple_conv)
SET = mk("set", set, lambda x: isinstance(x, (set, SymSet)), SetT)


def len_(x):
    n = sym_length(x)
    if n is not None:
        return n
    return len(x)


class SymRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        ln = stop - start
        if isinstance(step, int) and step == 1:
            self.n = ite(tb(ln > 0), ln, 0) if not isinstance(ln, int) else max(ln, 0)
            if CTX.known(tr(ln) >= 0):
                self.n = ln
        else:
            if not CTX.known(tr(step) > 0):
                raise Unsupported("range step")
            q = core.py_divmod(ln + step - 1, step)[0]
            self.n = q if CTX.known(tr(ln) >= 0) else ite(tb(ln > 0), q, 0)

    def sym_len(self):
        return self.n

    def sym_get(self, i):
        return self.start + i * self.step

    def sym_contains(self, x):
        if isinstance(self.step, int) and self.step == 1:
            return wrap(z3.And(tr(x) >= tr(self.start), tr(x) < tr(self.stop)))
        raise Unsupported("membership in strided range")

    def __iter__(self):
        raise Unsupported("native iteration over symbolic range")


def range_(*a):
    a = [concretise(x) for x in a]
    for x in a:
        if not A.is_int(x):
            if isinstance(x, bool):
                continue
            raise TypeError(f"'{type(x).__name__}' object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    return SymRange(*a)


def zip_(*its):
    ns = [concretise(sym_length(x)) if sym_length(x) is not None else None for x in its]
    if all(n is None or isinstance(n, int) for n in ns):
        return zip(*[x if n is None else [x.sym_get(i) for i in range(n)] for x, n in zip(its, ns)])
    its = [x if n is not None else SList(list(x)) for x, n in zip(its, ns)]
    ns = [x.sym_len() for x in its]
    n = ns[0]
    for m in ns[1:]:
        if not A.same(n, m):
            n = ite(tb(n <= m), n, m)
    return SymSeq(n, lambda i: tuple(x.sym_get(i) for x in its))


def enumerate_(it, start=0):
    n = sym_length(it)
    if n is not None:
        n = concretise(n)
    if n is None:
        return enumerate(it, start)
    if isinstance(n, int):
        return [(start + i, it.sym_get(i)) for i in range(n)]
    return SymSeq(n, lambda i: (i + start, it.sym_get(i)))


def reversed_(it):
    n = sym_length(it)
    if n is None:
        return reversed(it)
    n = concretise(n)
    if isinstance(n, int):
        return [it.sym_get(n - 1 - i) for i in range(n)]
    return SymSeq(n, lambda i: it.sym_get(n - 1 - i))


def map_(f, *its):
    if len(its) == 1:
        return LANG.comp(its[0], f, None, True)
    return LANG.comp(zip_(*its), lambda t: f(*t), None, True)


def sum_(it, start=0):
    n = sym_length(it)
    if n is not None:
        n = concretise(n)
    if n is None or isinstance(n, int):
        items = list(it) if n is None else [it.sym_get(i) for i in range(n)]
        r = start
        for x in items:
            r = r + x
        return r
    if isinstance(it, SymArray):
        return start + A.np_sum(it, 0)
    return start + A.agg_sum(n, lambda i: A.num(it.sym_get(i)))


def _ext(sign):
    def f(*a, key=None, default=core):
        if len(a) == 1:
            it = a[0]
            n = sym_length(it)
            if n is not None:
                n = concretise(n)
                if not isinstance(n, int):
                    if key is not None:
                        raise Unsupported("min/max with key")
                    return A.np_min(A.asarray(it), sign=sign)
                a = [it.sym_get(i) for i in range(n)]
            else:
                a = list(it)
        if not a:
            if default is not core:
                return default
            raise ValueError("arg is an empty sequence")
        if key is not None or not any(isinstance(x, (SymNum, Ext)) for x in a):
            return (min if sign > 0 else max)(a, key=key) if key else (min if sign > 0 else max)(a)
        r = a[0]
        for x in a[1:]:
            c = (x < r) if sign > 0 else (x > r)
            r = ite(tb(c), x, r)
        return r
    return f


def any_(it):
    n = sym_length(it)
    if n is not None:
        n = concretise(n)
    if n is None or isinstance(n, int):
        items = list(it) if n is None else [it.sym_get(i) for i in range(n)]
        r = False
        for x in items:
            b = bool_conv(x)
            if b is True:
                return True
            r = wrap(z3.simplify(z3.Or(tb(r), tb(b))))
        return r
    return A.quant_any((n,), lambda idx: bool_conv(it.sym_get(idx[0])))


def all_(it):
    n = sym_length(it)
    if n is not None:
        n = concretise(n)
    if n is None or isinstance(n, int):
        items = list(it) if n is None else [it.sym_get(i) for i in range(n)]
        r = True
        for x in items:
            b = bool_conv(x)
            if b is False:
                return False
            r = wrap(z3.simplify(z3.And(tb(r), tb(b))))
        return r
    r = A.quant_any((n,), lambda idx: Lang.not_(bool_conv(it.sym_get(idx[0]))))
    return Lang.not_(r)


def next_(it, *d):
    if isinstance(it, SList):
        if it:
            return it[0]
        if d:
            return d[0]
        raise StopIteration()
    return next(it, *d)


DICT = mk("dict", dict, lambda x: isinstance(x, dict), lambda *a, **k: SDict(*a, **k))


def isinstance_(x, c):
    if isinstance(x, Poison):
        x._hit()
    if isinstance(c, tuple):
        return any(isinstance_(x, d) for d in c)
    if c is SymArray:
        return isinstance(x, SymArray)
    if isinstance(x, (Element, ObjValue)):
        return issubclass(x.cls, c) if isinstance(c, type) else False
    return isinstance(x, c)


def abs_(x):
    return abs(x)


def round_(x, n=None):
    if isinstance(x, SymInt) and n is None:
        return x
    if isinstance(x, SymNum):
        raise Unsupported("round of symbolic number")
    return round(x) if n is None else round(x, n)


def str_(x=""):
    return builtins.str(x)


def print_(*a, **k):
    return None


def sorted_(it, key=None, reverse=False):
    n = sym_length(it)
    items = list(it) if n is None else [it.sym_get(i) for i in range(concretise(n))]
    return SList(sorted(items, key=key, reverse=reverse))


def input_(*a):
    raise Unsupported("interactive input")


def getattr_(o, n, *d):
    return getattr(o, n, *d)


def type_(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SList):
        return LIST
    if isinstance(x, (Element, ObjValue)):
        return x.cls
    if isinstance(x, SymInt):
        return INT
    if isinstance(x, SymReal):
        return FLOAT
    return type(x)


SHIMS = {"int": INT, "float": FLOAT, "bool": BOOL, "list": LIST, "tuple": TUPLE, "set": SET, "len": len_, "range": range_, "zip": zip_,
         "enumerate": enumerate_, "reversed": reversed_, "map": map_, "sum": sum_, "min": _ext(1), "max": _ext(-1), "any": any_,
         "all": all_, "isinstance": isinstance_, "abs": abs_, "round": round_, "print": print_, "sorted": sorted_, "open": npshim.open_,
         "input": input_, "type": type_, "next": next_, "dict": DICT, "vars": Lang.vars, "setattr": Lang.setattr}


# ---------------------------------------------------------------------------------
def plt_stub():
    m = types.ModuleType("matplotlib.pyplot")

    class Anything:
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return Anything()

        def __call__(self, *a, **k):
            CTX.event("plot")
            return Anything()

        def __mul__(self, o):
            return [1, 1]

        def __eq__(self, o):
            return False

    m.__getattr__ = lambda n: Anything() if not n.startswith("__") else (_ for _ in ()).throw(AttributeError(n))
    return m


class Header:
    """contract of PlumedHeader: FIELDS line from the field list, one SET line per constant"""

    def __init__(self, fields=None, constants=None, delim=None):
        self.fields, self.constants = fields, constants

    def __str__(self):
        return HeaderText(self)


class HeaderText(str):
    def __new__(cls, h):
        s = str.__new__(cls, "#! FIELDS ...")
        s.header = h
        return s


class Repo:
    """the transformed modules of the repository"""

    def __init__(self, repo=None, extra=None):
        self.repo = repo or REPO
        self.mods = {}
        self.loaded = {}
        self.sources = {}
        self.shims = npshim.make_numpy()
        self.shims["functools"] = functools_shim()
        self.shims["numpy"].matrix = None
        self.shims["matplotlib.pyplot"] = plt_stub()
        mm = types.ModuleType("matplotlib")
        mm.pyplot = self.shims["matplotlib.pyplot"]
        mm.use = lambda *a, **k: None
        self.shims["matplotlib"] = mm
        cp = types.ModuleType("copy")
        cp.copy, cp.deepcopy = shim_copy, shim_deepcopy
        self.shims["copy"] = cp
        ma = types.ModuleType("math")
        ma.exp, ma.log, ma.sqrt, ma.floor, ma.ceil = core.sym_exp, core.sym_log, core.sym_sqrt, core.sym_floor, core.sym_ceil
        ma.pi, ma.inf, ma.nan = SymReal(core.PI), float("inf"), float("nan")
        ma.prod = lambda xs, start=1: self._prod(xs, start)
        ma.fabs = abs
        ma.isinf = npshim.isinf
        self.shims["math"] = ma
        for nondet in ("secrets", "uuid"):
            self.shims[nondet] = self._nondet(nondet)
        self.shims["random"], self.shims["time"] = npshim.stdlib_random(), npshim.stdlib_time()
        hp = types.ModuleType("bdld.helpers")
        hp.__path__ = []
        misc = types.ModuleType("bdld.helpers.misc")

        def initialize_file(filename, fields=None, constants=None, *a, **k):
            CTX.event("initialize_file", filename, fields, constants)

        def backup_if_exists(name):
            CTX.event("backup", name)

        def make_ordinal(n):
            return "nth"

        def write_2d_sliced_to_file(filename, data, n_points, fmt="%.18e", header=None, *a, **k):
            CTX.event("write2d", filename, data.copy() if isinstance(data, SymArray) else data, n_points, fmt, header)
        for f in (initialize_file, backup_if_exists, make_ordinal, write_2d_sliced_to_file):
            builtins.setattr(misc, f.__name__, f)
        ph = types.ModuleType("bdld.helpers.plumed_header")
        ph.PlumedHeader = Header
        hp.misc, hp.plumed_header = misc, ph
        self.shims.update({"bdld.helpers": hp, "bdld.helpers.misc": misc, "bdld.helpers.plumed_header": ph})
        if extra:
            self.shims.update(extra)

    @staticmethod
    def _prod(xs, start):
        r = start
        for x in xs:
            r = r * x
        return r

    @staticmethod
    def _nondet(name):
        m = types.ModuleType(name)

        def ga(n):
            if n.startswith("__"):
                raise AttributeError(n)

            def f(*a, **k):
                CTX.event("nondeterministic", f"{name}.{n}")
                return CTX.fresh_real("nondet")
            return f
        m.__getattr__ = ga
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            pkg = pkg[: len(pkg) - (level - 1)]
            name = ".".join(pkg + ([name] if name else []))
        if name in self.shims or name.split(".")[0] in ("numpy", "scipy", "matplotlib"):
            if name not in self.shims:
                raise Unsupported(f"import {name}")
            m = self.shims[name]
            if fromlist:
                return m
            if "." in name:
                return self.shims[name.split(".")[0]] if not name.startswith("bdld") else self.get("bdld")
            return m
        if name.split(".")[0] == "bdld":
            m = self.get(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and hasattr(m, "__path__"):
                        sub = f"{name}.{f}"
                        if sub in self.shims:
                            builtins.setattr(m, f, self.shims[sub])
                        elif self.path(sub):
                            self.get(sub)
                return m
            return self.get("bdld")
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None

    def get(self, name):
        if name in self.shims:
            return self.shims[name]
        if name in self.mods:
            return self.mods[name]
        loc = self.path(name)
        if loc is None:
            raise ModuleNotFoundError(name)
        if "." in name:
            parent = self.get(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        else:
            parent = None
        path, ispkg = loc
        with open(path, encoding="utf-8") as f:
            src = f.read()
        LOADED[os.path.relpath(path, self.repo)] = self.sources[os.path.relpath(path, self.repo)] = hashlib.sha256(src.encode()).hexdigest()
        code = CODE.get((name, src))
        if code is None:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, path)
                tree = Xform(name).visit(tree)
                ast.fix_missing_locations(tree)
                code = CODE[(name, src)] = compile(tree, path, "exec", dont_inherit=True)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        b = dict(vars(builtins))
        b["__import__"] = self._import
        m.__dict__["__builtins__"] = b
        for k, v in SHIMS.items():
            b[k] = v
        m.__dict__["L__"] = LANG
        self.mods[name] = m
        if parent is not None:
            builtins.setattr(parent, name.rsplit(".", 1)[1], m)
        exec(code, m.__dict__)
        self.loaded[name] = (fingerprint(m, self), dict(bindings(m)))
        return m

    # -- state that outlives a call: module globals, class attributes, defaults, memo tables --------
    def shared_state_changed(self):
        """names of the modules whose module- or class-level data differ from what loading them gave"""
        return [n for n, (fp, _) in self.loaded.items() if n in self.mods and not fp_same(fp, fingerprint(self.mods[n], self))]

    def drop_stubs(self):
        """undo what a contract put in place of functions, classes and modules; data stay"""
        for n, (_, b) in self.loaded.items():
            for (o, k), v in b.items():
                if vars(o).get(k) is not v:
                    if isinstance(o, type):
                        type.__setattr__(o, k, v)
                    else:
                        o.__dict__[k] = v


def own_classes(m):
    return [v for v in m.__dict__.values() if isinstance(v, type) and v.__module__ == m.__name__]


def bindings(m):
    """(holder, name) -> value, for the code of a module"""
    for h in [m] + own_classes(m):
        for k, v in vars(h).items():
            if k in ("__builtins__", "__dict__", "__weakref__"):
                continue
            if callable(v) or isinstance(v, (staticmethod, classmethod, property, types.ModuleType)):
                yield (h, k), v


class Leaf:
    def __init__(self, v):
        self.v = v


def fingerprint(m, repo):
    stack = []

    def fp(v, depth):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, (int, float, str, bytes, bool, type(None), types.ModuleType, types.BuiltinFunctionType)) or depth > 6:
            return Leaf(v)
        if getattr(type(v), "__module__", "") == "typing" or id(v) in stack:
            return None
        stack.append(id(v))
        keep.append(v)
        try:
            return walk(v, depth)
        finally:
            stack.pop()

    def walk(v, depth):
        if isinstance(v, types.FunctionType):
            if not (v.__module__ or "").startswith("bdld"):
                return None  # a stand-in
            cells = []
            for c in v.__closure__ or ():
                try:
                    cells.append(c.cell_contents)
                except ValueError:
                    pass
            return ("f", [fp(x, depth + 1) for x in (v.__defaults__ or ())], [fp(x, depth + 1) for x in (v.__kwdefaults__ or {}).values()],
                    [(k, fp(x, depth + 1)) for k, x in v.__dict__.items()], [fp(x, depth + 1) for x in cells])
        if isinstance(v, type):
            if v.__module__ != m.__name__:
                return None
            return ("c", [(k, fp(x, depth + 1)) for k, x in vars(v).items()
                          if k not in ("__dict__", "__weakref__", "__doc__", "__module__", "__abstractmethods__", "_abc_impl")])
        if isinstance(v, dict):
            return ("d", [(Leaf(k), fp(x, depth + 1)) for k, x in dict.items(v)])
        if isinstance(v, (list, tuple, set, frozenset)):
            return ("l", [fp(x, depth + 1) for x in (list.__iter__(v) if isinstance(v, list) else v)])
        if isinstance(v, SymArray):
            return ("a", Leaf(v), v.buf.version if hasattr(v.buf, "version") else Leaf(v.buf.get if hasattr(v.buf, "get") else v.buf))
        d = getattr(v, "__dict__", None)
        if isinstance(d, dict):
            return ("o", Leaf(v), [(k, fp(x, depth + 1)) for k, x in d.items() if k != "_birth"])
        return Leaf(v)
    keep = []
    out = [(k, fp(v, 0)) for k, v in m.__dict__.items() if k not in ("__builtins__", "L__", "__doc__")]
    return (out, keep)


def fp_same(a, b):
    def same(x, y):
        if x is None or y is None:
            return True  # a stand-in on one of the sides
        if isinstance(x, Leaf) and (callable(x.v) or isinstance(x.v, types.ModuleType)):
            return True  # code: can only be replaced by a stand-in
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in "fc" and not (isinstance(y, tuple) and y and y[0] == x[0]):
            return True
        if isinstance(x, Leaf) and isinstance(y, Leaf):
            return x.v is y.v or (type(x.v) is type(y.v) and isinstance(x.v, (int, float, str, bytes)) and x.v == y.v)
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
        return type(x) is type(y) and not isinstance(x, Leaf) and x == y
    xs, ys = dict(a[0]), dict(b[0])
    for k in set(xs) | set(ys):
        if k not in xs:
            if not isinstance(ys[k], (Leaf, tuple)) or isinstance(ys[k], Leaf) and (callable(ys[k].v) or isinstance(ys[k].v, types.ModuleType)):
                continue
            return False
        if k not in ys or not same(xs[k], ys[k]):
            return False
    return True


def memo(fn, maxsize):
    """functools.lru_cache/cache: the value stored for equal arguments"""
    import functools
    table = SDict()

    @functools.wraps(fn)
    def call(*a, **k):
        key = a + tuple(x for kv in sorted(k.items()) for x in kv)
        for x in key:
            if isinstance(x, (SymArray, list, dict)):
                raise TypeError(f"unhashable type: {type(x).__name__}")
        if key in table:
            return table[key]
        v = fn(*a, **k)
        table[key] = v
        return v
    call.cache_clear = table.clear
    return call


def functools_shim():
    import functools
    m = types.ModuleType("functools")
    m.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith("__")})

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize):
            return memo(maxsize, 128)
        return lambda fn: memo(fn, maxsize)
    m.lru_cache, m.cache = lru_cache, lambda fn: memo(fn, None)
    return m


LANG = Lang()
