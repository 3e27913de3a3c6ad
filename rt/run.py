"""/opt/venv/bin/python run.py PROP TIER SEED OUT [CASE INDEX]"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def go():
    prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    only = (sys.argv[5], int(sys.argv[6])) if len(sys.argv) > 6 else None
    try:
        import lib
        importlib.import_module(prop.lower())
        res = lib.main(prop, tier, seed, only)
    except BaseException:
        import traceback
        res = {"property": prop, "cases": 0, "failure": None, "error": traceback.format_exc()[-2000:]}
    with open(out, "w") as f:
        json.dump(res, f)
    if len(sys.argv) > 6 or os.environ.get("RT_SHOW"):
        print(json.dumps(res, indent=1)[:6000])


go()
