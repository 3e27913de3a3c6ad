"""Discharge all contracts of one property:  python3-vt -m engine.prove C08 quick OUT.json

contracts/cXX.py registers contract functions with @contract(...).  Each one
builds an arbitrary state that satisfies the precondition, calls the real
(mechanically transformed) function of /repo and states the postcondition
as obligations.  A contract is explored on every feasible path."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Contract:
    def __init__(self, fn, name, functions, trusted, prop, tier):
        self.fn, self.name, self.functions, self.trusted, self.prop, self.tier = fn, name, functions, trusted, prop, tier


REG = []


def contract(prop, functions, trusted=(), name=None, tier="quick", params=None):
    """params: list of argument tuples; one contract instance each"""
    def deco(fn):
        for p in (params if params is not None else [()]):
            p = p if isinstance(p, tuple) else (p,)
            nm = (name or fn.__name__) + ("[" + ",".join(map(str, p)) + "]" if p else "")
            REG.append(Contract((lambda fn, p: lambda: fn(*p))(fn, p), nm, list(functions), list(trusted), prop, tier))
        return fn
    return deco


def is_of_the_code(e, frame, repo_dir):
    """an exception of the code itself, not of a stand-in or a symbolic value that lacks something"""
    if isinstance(e, AttributeError):
        f = getattr(sys.modules.get(type(e.obj).__module__), "__file__", "") or ""
        return type(e.obj).__module__.startswith("bdld") or f.startswith(repo_dir)
    return isinstance(e, (NameError, IndexError, ZeroDivisionError)) or (frame.line or "").startswith("raise")


def run_contract(i, limit, q):
    import signal
    from . import core
    c = REG[i]
    t_start = time.time()
    CTX = core.CTX
    CTX.obls.clear()
    CTX.paths = 0
    CTX.solver_s = 0.0
    res = {"contract": c.name, "crash": None, "unsupported": None, "complete": 0, "vacuous": 0}
    sys.setrecursionlimit(20000)
    repo_dir = os.environ.get("VERIF_REPO", "/repo")

    common = sys.modules["contracts.common"]
    changed, hidden, opened = set(), set(), set()

    def note_shared_state():
        for r in common.REPOS:
            changed.update(r.shared_state_changed())
        for kind, name in common.hidden_state_changed():
            (hidden if kind == "earlier" else opened).add(name)

    def explore(fn):
        while True:
            n0 = len(CTX.obls)
            try:
                return core.explore(fn)
            except core.Restart:
                del CTX.obls[n0:]
                res["complete"] = res["vacuous"] = 0

    def again(fn, label):
        if any(o.status == "refuted" for o in CTX.obls):
            return
        n0 = len(CTX.obls)
        CTX.earlier = True
        try:
            explore(fn)
        finally:
            CTX.earlier = False
            for o in CTX.obls[n0:]:
                o.name += f" ({label})"

    def used_before():
        """the contract for objects that were used before, where a use changes attributes the contract does not know"""
        common.MODE["earlier"] = True
        try:
            body()
        finally:
            common.MODE["earlier"] = False

    def warm():
        """the contract once more, after an earlier use of the same modules on unrelated data: module- or class-level
        state that the first use left behind must not matter"""
        del common.REPOS[:], common.REUSE[:]
        common.z3.prefix, CTX.muted = "w!", True
        try:
            c.fn()
        except core.Stop:
            raise
        except Exception:
            return  # judged by the first exploration
        finally:
            common.z3.prefix, CTX.muted = "", False
        for r in common.REPOS:
            r.drop_stubs()
        common.REUSE[:] = list(common.REPOS)
        del common.REPOS[:]
        for a in (CTX.events, CTX.rng_log, CTX.rngs, CTX.ghost, CTX.mins, CTX.pathlog, CTX.hints):
            a.clear()
        body()

    def body():
        if not common.REUSE:
            del common.REPOS[:]
        del common.WATCH[:]
        try:
            c.fn()
        except core.Stop:
            raise
        except Exception as e:
            note_shared_state()
            tb = traceback.extract_tb(e.__traceback__)
            fr = [f for f in tb if f.filename.startswith(repo_dir)]
            where = f"{os.path.relpath(fr[-1].filename, repo_dir)}:{fr[-1].lineno}" if fr else ""
            last = tb[-1].filename
            txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
            if last.startswith(repo_dir) and is_of_the_code(e, tb[-1], repo_dir) and CTX.solver.check() == core.z3.sat:
                CTX.obls.append(core.Obligation("no-unexpected-exception", "refuted", "z3", 0.0,
                                                {"exception": repr(e), "where": where, "trace": txt,
                                                 "path": [bool(v) for v, f in CTX.trail if not f]}))
            else:
                CTX.obls.append(core.Obligation("no-unexpected-exception", "unknown", "-", 0.0,
                                                {"exception": repr(e), "where": where, "trace": txt}))
            return
        note_shared_state()
        r = CTX.solver.check()
        if r == core.z3.unsat:
            res["vacuous"] += 1
        else:
            res["complete"] += 1

    try:
        signal.alarm(int(limit))

        def onalarm(*a):
            raise TimeoutError("contract time limit")
        signal.signal(signal.SIGALRM, onalarm)
        try:
            explore(body)
            if opened:
                for o in CTX.obls:
                    o.status, o.detail = "unknown", {"why": f"attributes outside the contract change: {sorted(opened)}"}
            if changed:
                again(warm, "after an earlier use of the module")
            if hidden:
                again(used_before, "after an earlier use of the object")
        except core.Stop as e:
            tb = traceback.extract_tb(e.__traceback__)
            fr = [f for f in tb if f.filename.startswith(repo_dir)]
            where = f"{os.path.relpath(fr[-1].filename, repo_dir)}:{fr[-1].lineno}" if fr else ""
            res["unsupported"] = f"{type(e).__name__}: {e} {where}"
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
        except TimeoutError as e:
            res["unsupported"] = str(e)
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
        signal.alarm(0)
    except BaseException:
        res["crash"] = traceback.format_exc()[-2000:]
    obls = []
    for o in CTX.obls:
        obls.append((o.name, o.status, o.backend, round(o.secs, 4), o.detail if o.status != "proved" else None))
    res["obls"] = obls
    res["paths"] = CTX.paths
    res["wall"] = round(time.time() - t_start, 2)
    res["solver_s"] = CTX.solver_s + sum(o.secs for o in CTX.obls)
    from .lang import LOADED
    res["sources"] = dict(LOADED)
    res["notes"] = sorted(set(CTX.unsound_notes))
    q.put((i, json.dumps(res, default=str)))
    q.close()
    q.join_thread()


def main():
    prop, tier, out = sys.argv[1], sys.argv[2], sys.argv[3]
    only = sys.argv[4] if len(sys.argv) > 4 else None
    sys.path.insert(0, HERE)
    from . import prove as me  # the registry lives in the imported module
    t0 = time.time()
    mod = importlib.import_module("contracts." + prop.lower())
    idx = [i for i, c in enumerate(me.REG) if c.prop == prop and (only is None or only in c.name) and
           (tier == "thorough" or c.tier == "quick")]
    limit = 240 if tier == "quick" else 1500
    total = 400 if tier == "quick" else 2900
    ctxm = mp.get_context("fork")
    q = ctxm.Queue()
    todo = list(idx)
    running = {}
    results = {}
    while todo or running:
        while todo and len(running) < 8:
            i = todo.pop(0)
            p = ctxm.Process(target=me.run_contract, args=(i, limit, q))
            p.start()
            running[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.1)
            results[i] = json.loads(r)
            running.pop(i)[0].join()
        except Exception:
            pass
        for i, (p, t) in list(running.items()):
            if time.time() - t > limit + 20 or time.time() - t0 > total:
                p.kill()
                running.pop(i)
                results[i] = {"contract": me.REG[i].name, "crash": None, "unsupported": "time limit", "obls": [], "paths": 0,
                              "solver_s": 0, "sources": {}, "complete": 0, "vacuous": 0, "notes": []}
            elif not p.is_alive() and i in running and q.empty():
                time.sleep(0.2)
                if q.empty():
                    running.pop(i)
                    results[i] = {"contract": me.REG[i].name, "crash": f"worker died ({p.exitcode})", "unsupported": None, "obls": [],
                                  "paths": 0, "solver_s": 0, "sources": {}, "complete": 0, "vacuous": 0, "notes": []}
    rep = {"obligations": 0, "discharged": 0, "refuted": [], "undecided": [], "backends": {}, "solver_s": 0.0, "paths": 0,
           "functions": [], "contracts": [], "trusted": list(getattr(mod, "TRUSTED", [])), "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
           "vacuity": {"complete_paths": 0, "infeasible_paths": 0, "zero_obligation_contracts": []}, "names": [], "sources": {}, "crash": None}
    names = {}
    for i in idx:
        c, r = me.REG[i], results[i]
        rep["paths"] += r["paths"]
        rep["solver_s"] += r["solver_s"]
        rep["sources"].update(r["sources"])
        rep["vacuity"]["complete_paths"] += r["complete"]
        rep["vacuity"]["infeasible_paths"] += r["vacuous"]
        for f in c.functions:
            if f not in rep["functions"]:
                rep["functions"].append(f)
        for t in c.trusted:
            if t not in rep["trusted"]:
                rep["trusted"].append(t)
        np_, nbad = 0, 0
        for (name, st, be, secs, detail) in r["obls"]:
            full = f"{c.name}:{name}"
            rep["obligations"] += 1
            names[full] = names.get(full, 0) + 1
            if st == "proved":
                rep["discharged"] += 1
                np_ += 1
                rep["backends"][be] = rep["backends"].get(be, 0) + 1
            elif st == "refuted":
                nbad += 1
                if sum(1 for x in rep["refuted"] if x["name"] == full) < 3:
                    rep["refuted"].append({"name": full, "where": (detail or {}).get("where", "") if isinstance(detail, dict) else "",
                                           "output": detail})
            else:
                nbad += 1
                if sum(1 for x in rep["undecided"] if x["name"] == full) < 3:
                    rep["undecided"].append({"name": full, "why": "solver gave no answer: " + json.dumps(detail, default=str)[:1200]})
        if r["crash"]:
            rep["obligations"] += 1
            rep["undecided"].append({"name": c.name, "why": "engine error: " + r["crash"]})
        elif r["unsupported"]:
            rep["obligations"] += 1
            rep["undecided"].append({"name": c.name, "why": r["unsupported"]})
        elif np_ + nbad == 0 or r["complete"] == 0 and nbad == 0:
            rep["obligations"] += 1
            rep["vacuity"]["zero_obligation_contracts"].append(c.name)
            rep["undecided"].append({"name": c.name, "why": "vacuous: no feasible path reached the postcondition"})
        rep["contracts"].append({"name": c.name, "functions": c.functions, "obligations": np_ + nbad, "proved": np_, "paths": r["paths"],
                                 "wall": r.get("wall"), "complete": not (r["crash"] or r["unsupported"] or nbad)})
        for nt in r["notes"]:
            if nt not in rep["assumptions"]:
                rep["assumptions"].append(nt)
    rep["names"] = [f"{k} x{v}" if v > 1 else k for k, v in names.items()]
    rep["solver_s"] = round(rep["solver_s"], 2)
    with open(out, "w") as f:
        json.dump(rep, f)
    if os.environ.get("VERIF_SHOW"):
        for c in rep["contracts"]:
            print(c["name"], f"{c['proved']}/{c['obligations']}", "paths", c["paths"], "" if c["complete"] else "INCOMPLETE")
        for u in rep["undecided"]:
            print("UNDECIDED", u["name"], u["why"][:int(os.environ.get("VERIF_W", "700"))])
        for u in rep["refuted"]:
            print("REFUTED", u["name"], json.dumps(u["output"], default=str)[:int(os.environ.get("VERIF_W", "1500"))])
        print(f"{rep['discharged']}/{rep['obligations']} in {time.time()-t0:.1f}s", rep["backends"])
    return 0


if __name__ == "__main__":
    sys.exit(main())
