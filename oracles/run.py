"""Replay and bounded search on the real code (never counted as proof).

oracle modules define
  RULE            how cases are made and what makes one non-trivial
  cases(rng, tier) generator of JSON-able cases
  check(case)     None, or a message (or (key, message)) when the real code breaks the property
"""
import argparse
import faulthandler
import importlib
import json
import logging
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def run_case(mod, case, limit=20):
    """(message or None, key)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        r = mod.check(case)
    except Hang:
        r = ("hang", "no result within %d s" % limit)
    except Skip:
        r = None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if "diffpy/srmise" in f.filename]
        if not loc and not getattr(mod, "ANY_EXCEPTION", False):
            raise
        where = "%s:%s" % (os.path.basename(loc[-1].filename), loc[-1].name) if loc else "?"
        r = ("exception:%s:%s" % (type(e).__name__, where), "%s: %s (in %s)" % (type(e).__name__, e, where))
    finally:
        signal.alarm(0)
    if r is None:
        return None, None
    if isinstance(r, tuple):
        return r[1], r[0]
    return r, "fail"


class Skip(Exception):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--witness")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float, default=30)
    a = ap.parse_args()
    logging.disable(logging.CRITICAL)
    sys.modules["oracle_run"] = sys.modules["__main__"]
    t0 = time.time()
    res = {"ran": 0, "nontrivial": 0, "failures": [], "samples": [], "rule": ""}
    try:
        mod = importlib.import_module("oracles." + a.prop)
    except Exception as e:
        loc = [f for f in traceback.extract_tb(e.__traceback__) if "diffpy/srmise" in f.filename]
        if not loc:
            raise
        res["failures"].append({"case": None, "message": "the code cannot be imported: %s: %s" % (type(e).__name__, e), "key": "import"})
        json.dump(res, open(a.out, "w"))
        return 1
    res["rule"] = getattr(mod, "RULE", "")
    if a.replay:
        c = json.load(open(a.replay))["case"]
        print(run_case(mod, c)[0] or "holds")
        return 0
    todo = []
    if a.witness:
        todo = json.load(open(a.witness))
    rng = random.Random(a.seed * 1000003 + (7 if a.tier == "thorough" else 0))
    distinct = set()

    def handle(case, wit):
        try:
            msg, key = run_case(mod, case)
        except Exception as e:
            if wit:
                return  # a partial model need not be a well-formed case
            raise
        res["ran"] += 1
        s = json.dumps(case, sort_keys=True, default=str)
        if s not in distinct:
            distinct.add(s)
        if len(res["samples"]) < 2:
            res["samples"].append(case)
        if msg is not None:
            if sum(1 for f in res["failures"] if f["key"] == key) < 3:
                res["failures"].append({"case": case, "message": msg, "key": key, "witness": wit})
    for w in todo:
        handle(w, True)
    for case in mod.cases(rng, a.tier):
        handle(case, False)
        if len(res["failures"]) > 20 or time.time() - t0 > a.seconds:
            break
    res["nontrivial"] = len(distinct)
    res["seconds"] = round(time.time() - t0, 2)
    json.dump(res, open(a.out, "w"), default=str)
    return 0


if __name__ == "__main__":
    sys.exit(main())
