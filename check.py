#!/usr/bin/env python3
"""python3-vt /verif/check.py PROP [--tier quick|thorough] [--replay FILE]

1. proof: the deductive verifier in engine/ reads /repo's current source,
   generates the obligations of contracts/<prop>.py and discharges them.
2. run-time cross-check: the same contracts evaluated on the real code in
   CPython (rt/), which also turns a refuted obligation into a concrete input.

exit 0: every obligation generated was discharged (or, where the source left
the verifier's subset, the labelled bounded stand-in passed); exit 1: VIOLATION.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REAL = "/opt/venv/bin/python"
PROVER = sys.executable


def start(cmd, out, limit):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    log = open(out + ".log", "wb")
    p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=log, stderr=log, start_new_session=True)
    p.t0, p.limit, p.outfile = time.time(), limit, out
    return p


def finish(p):
    """result dict, or {'crash': text}"""
    left = p.limit - (time.time() - p.t0)
    try:
        p.wait(max(left, 0.1))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return {"crash": f"time limit of {p.limit} s reached"}
    try:
        with open(p.outfile) as f:
            return json.load(f)
    except (OSError, ValueError):
        with open(p.outfile + ".log", errors="replace") as f:
            return {"crash": f"exit {p.returncode}: " + f.read()[-2000:]}


def known(prop):
    """entries of known_findings.txt that suppress: 'known: property=.. key=.. text'"""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    out.append(line.strip()[len("known: "):])
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="verif_chk_")
    try:
        if a.replay:
            return replay(prop, a.replay, tmp)
        return check(prop, tier, seed, tmp)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def rt(prop, tier, seed, out, limit, only=()):
    return start([REAL, "rt/run.py", prop, tier, str(seed), out, *map(str, only)], out, limit)


def replay(prop, path, tmp):
    with open(path) as f:
        r = json.load(f)
    if r.get("kind") != "input":
        print(json.dumps(r, indent=1))
        print("no concrete input recorded: re-run the check to redo the proof")
        return 2
    c = r["failure"]
    res = finish(rt(prop, c["tier"], c["seed"], os.path.join(tmp, "r"), 600, (c["case"], c["index"])))
    print(json.dumps(res.get("failure") or res, indent=1)[:6000])
    return 1 if res.get("failure") else 0


def check(prop, tier, seed, tmp):
    t0 = time.time()
    lim_rt, lim_pf = (240, 420) if tier == "quick" else (2400, 3000)
    p_rt = rt(prop, tier, seed, os.path.join(tmp, "rt"), lim_rt)
    p_pf = start([PROVER, "-m", "engine.prove", prop, tier, os.path.join(tmp, "pf")],
                 os.path.join(tmp, "pf"), lim_pf)
    run = finish(p_rt)
    pf = finish(p_pf)
    fail = run.get("failure")
    refuted = pf.get("refuted") or []
    if refuted and not fail:
        # look harder for a concrete input behind the failed obligation
        more = finish(rt(prop, "thorough", seed + 1, os.path.join(tmp, "rt2"), 200 if tier == "quick" else 1200))
        fail = more.get("failure")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rpath = os.path.join(HERE, "replays", prop + ".json")
    if os.path.exists(rpath):
        os.remove(rpath)
    verdict = 0
    if fail or refuted:
        verdict = 1
        rep = {"property": prop, "kind": "input" if fail else "obligation",
               "failure": fail, "failed_obligations": refuted[:20],
               "how": f"python3-vt /verif/check.py {prop} --replay {rpath}"}
        with open(rpath, "w") as f:
            json.dump(rep, f, indent=1)
    write_evidence(prop, tier, seed, run, pf, verdict, time.time() - t0)
    for k in known(prop):
        print("KNOWN-FINDING: " + k)
    if fail:
        print(f"{prop}: {fail['case']}[{fail['index']}]: {fail['message']}"[:1500])
        print("  input: " + json.dumps(fail["input"])[:1500])
    for o in refuted[:5]:
        print(f"{prop}: obligation refuted: {o['name']} ({o.get('where', '')})"[:600])
    if verdict:
        print(f"VIOLATION property={prop} replay={rpath}" + ("" if fail else " no-failing-input-found"))
        return 1
    und = pf.get("undecided") or []
    for o in und[:10]:
        print(f"{prop}: not proved, bounded stand-in only: {o['name']}: {o.get('why', '')}"[:400])
    if pf.get("crash"):
        print(f"{prop}: proof part gave no answer: {pf['crash'][-400:]}")
    if run.get("error") or run.get("crash"):
        print(f"{prop}: run-time part: {(run.get('error') or run.get('crash'))[-600:]}")
    nd = pf.get("discharged", 0)
    nr = run.get("expects", 0)
    if nd == 0 and nr == 0:
        print(f"{prop}: nothing decided")
        return 2
    print(f"{prop}: {nd}/{pf.get('obligations', 0)} obligations discharged, "
          f"{run.get('cases', 0)} run-time cases, {time.time() - t0:.1f} s: held")
    return 0


def write_evidence(prop, tier, seed, run, pf, verdict, wall):
    trusted = pf.get("trusted") or []
    cov = {
        "obligations": pf.get("obligations", 0),
        "discharged": pf.get("discharged", 0),
        "checker_cmd": f"python3-vt /verif/check.py {prop} --tier {tier}",
        "trusted_base": trusted,
        "functions_under_contract": pf.get("functions", []),
        "contracts": pf.get("contracts", []),
        "backends": pf.get("backends", {}),
        "solver_s": pf.get("solver_s", 0),
        "paths": pf.get("paths", 0),
        "vacuity": pf.get("vacuity", {}),
        "obligation_names": pf.get("names", [])[:400],
        "not_proved": pf.get("undecided", []),
        "refuted": pf.get("refuted", []),
        "proof_part_crash": pf.get("crash"),
        "source_sha256": pf.get("sources", {}),
        "bounded_runtime_crosscheck": {
            "label": "bounded, not counted as proved",
            "cases": run.get("cases", 0), "distinct_inputs": run.get("distinct", 0),
            "assertions": run.get("expects", 0), "skipped": run.get("skipped", 0),
            "skip_reasons": run.get("skips", []),
            "per_case": run.get("per_case", {}), "samples": run.get("samples", []),
            "error": run.get("error") or run.get("crash"),
        },
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": pf.get("assumptions", []), "wall_s": round(wall, 2), "violations": verdict}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
