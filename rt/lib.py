"""Runtime side of the checks: contracts evaluated on the real code in CPython.

A case is a function f(T, r, i): r is a RandomState derived from (VERIF_SEED,
case name, i), so every case can be replayed on its own.  Oracles are
independent re-statements of the property; they never look at the text of the
code.  Fail = the property is broken on this concrete input.  Skip = the case
does not apply (e.g. an internal helper does not exist under that name).
"""
import hashlib
import json
import math
import os
import signal
import sys
import tempfile
import shutil
import traceback

import boot  # noqa: F401  (installs the helper stand-ins, sys.path)
import numpy as np


class Fail(Exception):
    def __init__(self, msg, **inputs):
        super().__init__(msg)
        self.msg, self.inputs = msg, inputs


class Skip(Exception):
    pass


CASES = []


def case(name, quick=10, thorough=100):
    def deco(f):
        CASES.append((name, f, quick, thorough))
        return f

    return deco


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 200 else f"array{x.shape}"
    if isinstance(x, (np.floating, float)):
        return float(x) if math.isfinite(x) else repr(float(x))
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    return repr(x)


class T:
    """assertion helper handed to the cases"""

    def __init__(self):
        self.n_expect = 0
        self.inputs = {}
        self.keys = set()
        self.samples = []
        self.notes = set()

    def given(self, **kw):
        """record the concrete input of the current case"""
        self.inputs.update(kw)

    def expect(self, cond, msg, **kw):
        self.n_expect += 1
        if not cond:
            raise Fail(msg, **kw)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-9, **kw):
        self.n_expect += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape or not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            raise Fail(msg, got=got, want=want, **kw)

    def same(self, got, want, msg, **kw):
        """bitwise equality of arrays"""
        self.n_expect += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w, equal_nan=g.dtype.kind == "f"):
            raise Fail(msg, got=got, want=want, **kw)

    def call(self, f, *a, **k):
        """call code under test on input satisfying its precondition"""
        try:
            with boot.quiet(), np.errstate(all="ignore"):
                return f(*a, **k)
        except (Fail, Skip):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(x.filename)}:{x.name}" for x in tb][-3:]
            raise Fail(f"raises {type(e).__name__}: {e} in {where} on valid input")
        except SystemExit as e:
            raise Fail(f"exits ({e.code}) on valid input")

    def rejects(self, f, excs, msg, **kw):
        """call must raise one of excs"""
        self.n_expect += 1
        try:
            with boot.quiet(), np.errstate(all="ignore"):
                r = f()
        except excs:
            return
        except Exception as e:
            raise Fail(f"{msg}: raised {type(e).__name__}: {e} instead of "
                       f"{[x.__name__ for x in (excs if isinstance(excs, tuple) else (excs,))]}", **kw)
        raise Fail(f"{msg}: accepted, returned {r!r:.200}", **kw)

    def need(self, obj, name):
        """an API name; absent names make the case inapplicable, not failing"""
        if not hasattr(obj, name):
            raise Skip(f"{obj!r:.60} has no {name}")
        return getattr(obj, name)


def rs(seed, name, i):
    h = hashlib.sha256(f"{seed}/{name}/{i}".encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], "little"))


class scratch:
    """fresh scratch directory, made the current one; removed afterwards"""

    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix="verif_rt_")
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def read_table(path):
    """header lines and rows of floats of a written file"""
    head, rows = [], []
    with open(path) as f:
        for line in f:
            if line.startswith("#"):
                head.append(line.rstrip("\n"))
            elif line.strip():
                rows.append([float(x) for x in line.split()])
    return head, rows


def fields_of(head):
    for h in head:
        w = h.split()
        if len(w) > 1 and w[1] == "FIELDS":
            return w[2:]
    return None


class TooLong(Skip):
    pass


def too_long(*a):
    raise TooLong("no answer within the time limit of one case")


def main(prop, tier, seed, only=None):
    signal.signal(signal.SIGALRM, too_long)
    res = {"property": prop, "cases": 0, "skipped": 0, "expects": 0, "distinct": 0,
           "per_case": {}, "samples": [], "skips": [], "failure": None, "error": None}
    distinct = set()
    for name, f, q, th in CASES:
        n = q if tier == "quick" else th
        idx = range(n)
        if only is not None:
            if only[0] != name:
                continue
            idx = [only[1]]
        done = 0
        for i in idx:
            t = T()
            t.tier = tier
            with scratch():
                try:
                    signal.alarm(40 if tier == "quick" else 300)
                    try:
                        f(t, rs(seed, name, i), i)
                    finally:
                        signal.alarm(0)
                except TooLong as e:  # not a verdict; the other indices of this case are left out
                    res["skipped"] += 1
                    res["skips"].append(f"{name}[{i}]: {e}")
                    break
                except Skip as e:
                    res["skipped"] += 1
                    if str(e) not in res["skips"]:
                        res["skips"].append(str(e))
                    continue
                except Fail as e:
                    inp = dict(t.inputs)
                    inp.update(e.inputs)
                    res["failure"] = {"case": name, "index": i, "seed": seed, "tier": tier,
                                      "message": e.msg, "input": jsonable(inp)}
                except Exception:
                    # not a verdict: the harness itself could not handle the code
                    res["error"] = f"{name}[{i}]: " + traceback.format_exc()[-1500:]
                    res["per_case"][name] = "harness error"
                    break
            res["cases"] += 1
            done += 1
            res["expects"] += t.n_expect
            key = (name, json.dumps(jsonable(t.inputs), sort_keys=True)[:2000])
            if t.n_expect:
                distinct.add(key)
            if len(res["samples"]) < 6 and i == 0 and t.inputs:
                res["samples"].append({"case": name, "input": json.loads(json.dumps(jsonable(t.inputs)))})
            if res["failure"]:
                break
        if name not in res["per_case"]:
            res["per_case"][name] = done
        if res["failure"]:
            break
    res["distinct"] = len(distinct)
    return res
