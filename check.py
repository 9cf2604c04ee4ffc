"""Decide one property: discharge every obligation generated from /repo's current source, then replay.

usage: python3-vt check.py PROPERTY [--strict]

exit 0: every obligation was discharged (or the code left the verifier's subset and the bounded
        stand-in found nothing: the evidence then says so and counts nothing as proved)
exit 1: VIOLATION line
"""
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

REAL_PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")
DEADLINE_QUICK, DEADLINE_THOROUGH = 560, 1500


def _work(prop, index, scale, conn):
    """Child process: one contract."""
    try:
        sys.stdout = sys.stderr
        from ded import contract, hook
        hook.install()
        importlib.import_module("contracts." + prop)
        c = contract.REGISTRY[prop][index]
        c.timeout_ms = int(c.timeout_ms * scale)
        c.budget = c.budget * scale
        conn.send(contract.run_contract(c))
    except BaseException as e:
        import traceback
        conn.send({"name": "%s:#%d" % (prop, index), "functions": [], "obligations": [], "covers": {}, "loops": [], "trusted": [], "wall": 0,
                   "unsupported": None, "budget": None, "error": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc(), "bounded": None, "paths": 0,
                   "feasibility_queries": 0, "feasibility_time": 0})
    finally:
        conn.close()


def names_of(prop, conn):
    try:
        from ded import contract, hook
        hook.install()
        importlib.import_module("contracts." + prop)
        conn.send([(c.name, c.functions, c.bounded) for c in contract.REGISTRY[prop]])
    except BaseException as e:
        import traceback
        conn.send("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))


def contract_list(prop):
    a, b = mp.Pipe(False)
    p = mp.Process(target=names_of, args=(prop, b))
    p.start()
    b.close()
    try:
        r = a.recv() if a.poll(120) else "no answer"
    except EOFError:
        r = "no answer"
    p.kill()
    p.join()
    return r


def run_all(prop, jobs, deadline, scale, nproc):
    """jobs: list of (index, name, functions, bounded)."""
    pending, running, out = list(jobs), [], {}
    while pending or running:
        while pending and len(running) < nproc:
            j = pending.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_work, args=(prop, j[0], scale, b))
            p.start()
            b.close()
            running.append((j, p, a))
        still = []
        for j, p, a in running:
            res = None
            if a.poll(0):
                try:
                    res = a.recv()
                except EOFError:
                    res = False
            elif not p.is_alive():
                res = False
            if res is None and time.time() > deadline:
                p.kill()
                res = False
                why = "time limit of the check reached"
            else:
                why = "the verifier process ended without an answer"
            if res is None:
                still.append((j, p, a))
                continue
            if res is False:
                res = {"name": j[1], "functions": j[2], "obligations": [], "covers": {}, "loops": [], "trusted": [], "wall": 0, "unsupported": None,
                       "budget": why, "error": None, "bounded": j[3], "paths": 0, "feasibility_queries": 0, "feasibility_time": 0}
            p.join(5)
            if p.is_alive():
                p.kill()
            out[j[0]] = res
        running = still
        time.sleep(0.02)
    return out


def undischarged(r):
    return [o for o in r["obligations"] if o["status"] in ("refuted", "unknown")]


def left_subset(r):
    return r.get("unsupported") or r.get("error") or r.get("budget")


def run_oracle(prop, seed, tier, witnesses, seconds):
    """Replay the verifier's counterexamples on the real code, then search for failing inputs."""
    if not os.path.exists(os.path.join(HERE, "oracles", prop + ".py")):
        return {"ran": 0, "failures": [], "none": True}
    with tempfile.TemporaryDirectory(prefix="vc-oracle-") as tmp:
        wf = os.path.join(tmp, "witness.json")
        of = os.path.join(tmp, "out.json")
        json.dump(witnesses, open(wf, "w"))
        env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=tmp,
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        cmd = [REAL_PYTHON, "-W", "ignore", os.path.join(HERE, "oracles", "run.py"), prop, "--seed", str(seed), "--tier", tier,
               "--witness", wf, "--out", of, "--seconds", str(seconds)]
        try:
            p = subprocess.run(cmd, env=env, cwd=tmp, capture_output=True, text=True, timeout=seconds + 120)
            if os.path.exists(of):
                return json.load(open(of))
            return {"ran": 0, "failures": [], "error": "oracle gave no answer: " + p.stderr[-2000:]}
        except subprocess.TimeoutExpired:
            if os.path.exists(of):
                return json.load(open(of))
            return {"ran": 0, "failures": [], "error": "oracle timed out"}


def known_findings(prop):
    """Lines 'finding: property=Cxx key=<regex> <text>' of known_findings.txt."""
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    strict = "--strict" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    deadline = t0 + (DEADLINE_QUICK if tier == "quick" else DEADLINE_THOROUGH)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    lst = contract_list(prop)
    problems = []
    if isinstance(lst, str):
        problems.append("the contracts could not be loaded: " + lst.strip().splitlines()[0])
        if strict:
            print(lst)
        lst = []
    jobs = [(i, n, f, b) for i, (n, f, b) in enumerate(lst)]
    nproc = max(2, min(8, os.cpu_count() or 2))
    res = run_all(prop, jobs, deadline, 1.0 if tier == "quick" else 3.0, nproc)
    known = known_findings(prop)

    def collect():
        failed, covers_bad, outside = [], [], []
        for r in (res[i] for i, *_ in jobs):
            if left_subset(r):
                outside.append("%s: %s" % (r["name"], left_subset(r)))
            # obligations already refuted by then stay refuted
            failed += [(r["name"], o) for o in undischarged(r)]
            if not left_subset(r):
                if not r["obligations"]:
                    covers_bad.append(r["name"] + ": no obligation was generated")
                covers_bad += ["%s: '%s' is unreachable" % (r["name"], k) for k, n in r["covers"].items() if n == 0]
        return failed, covers_bad, outside

    def replay_real(failed, suspicious):
        witnesses = []
        for n, o in failed:
            m = re.match(r"WITNESS (.*)", o["detail"] or "", re.S)
            if m:
                try:
                    witnesses.append(json.loads(m.group(1)))
                except ValueError:
                    pass
        secs = (25 if not suspicious else 90) if tier == "quick" else 300
        return run_oracle(prop, seed, tier, witnesses, secs)

    def is_new(f):
        return not any(re.fullmatch(key, f.get("key") or "") for key, _ in known)

    failed, covers_bad, outside = collect()
    suspicious = bool(failed or covers_bad or outside or problems)
    orc = replay_real(failed, suspicious)
    # an undecided query may only have been starved of time: once more, with more of it (unless the real code
    # has already been seen to fail)
    again = [j for j in jobs if (res[j[0]].get("budget") or any(o["status"] == "unknown" for o in undischarged(res[j[0]]))) and time.time() < deadline - 60]
    if again and not any(is_new(f) for f in orc["failures"]):
        res2 = run_all(prop, again, deadline, 2.5 if tier == "quick" else 5.0, nproc)
        for i, r in res2.items():
            if not r.get("budget"):
                res[i] = r
        failed, covers_bad, outside = collect()
    results = [res[i] for i, *_ in jobs]
    if strict:
        for r in results:
            if left_subset(r):
                print("OUTSIDE %s: %s" % (r["name"], left_subset(r)))
                print(r.get("tb", ""))
    if orc.get("error"):
        problems.append(orc["error"])
        if strict:
            print(orc["error"])
    new, seen = [], {}
    for f in orc["failures"]:
        k = next((txt for key, txt in known if re.fullmatch(key, f.get("key") or "")), None)
        if k is None:
            new.append(f)
        else:
            seen[k] = f
    for _, txt in known:
        # every listed finding is stated, whether or not this run met it again
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    viol = 0
    replay = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
    if os.path.exists(replay):
        os.remove(replay)
    code = 0
    failed_desc = [{"contract": n, "obligation": o["name"], "status": o["status"], "backend": o["backend"], "detail": (o["detail"] or "")[:3000]} for n, o in failed]
    if new:
        viol, code = len(new), 1
        json.dump({"property": prop, "case": new[0]["case"], "message": new[0]["message"], "failed_obligations": failed_desc, "all": new[:5],
                   "replay": "PYTHONPATH=/repo/src %s %s %s --replay %s" % (REAL_PYTHON, os.path.join(HERE, "oracles/run.py"), prop, replay)},
                  open(replay, "w"), indent=1)
        for n, o in failed[:5]:
            print("failed obligation: %s: %s (%s)" % (n, o["name"], o["status"]))
        print("failing input: %s" % new[0]["message"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    elif failed or covers_bad:
        viol, code = len(failed) + len(covers_bad), 1
        json.dump({"property": prop, "failed_obligations": failed_desc, "unreachable": covers_bad, "failing_input": None}, open(replay, "w"), indent=1)
        for n, o in failed[:8]:
            print("failed obligation: %s: %s (%s)" % (n, o["name"], o["status"]))
        for c in covers_bad[:8]:
            print("vacuous: %s" % c)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
    evidence(prop, tier, seed, results, orc, outside, problems, viol, time.time() - t0, known)
    if code == 0:
        nobl = sum(len(r["obligations"]) for r in results)
        print("%s: %d obligations discharged, %d contracts, %d replay cases, %.1f s%s" % (
            prop, nobl, len(results), orc.get("ran", 0), time.time() - t0,
            "" if not (outside or problems) else "; NOT PROVED (bounded stand-in only): " + "; ".join((outside + problems)[:4])))
        if strict and (outside or problems):
            return 3
    return code


def evidence(prop, tier, seed, results, orc, outside, problems, viol, wall, known):
    # a contract with a stated bound, or one that left the subset, is never counted as proved
    obls = [o for r in results if not r.get("bounded") and not left_subset(r) for o in r["obligations"]]
    bounded = [o for r in results if r.get("bounded") or left_subset(r) for o in r["obligations"]]
    proved = [r for r in results if not left_subset(r) and not r.get("bounded")]
    back = {}
    for o in obls:
        b = back.setdefault(o["backend"], {"obligations": 0, "seconds": 0.0})
        b["obligations"] += 1
        b["seconds"] = round(b["seconds"] + o["time"], 3)
    funcs = {}
    for r in results:
        kind = "bounded: " + r["bounded"] if r.get("bounded") else "under contract"
        if left_subset(r):
            kind = "outside the verifier's subset in this run; bounded stand-in only"
        for f in r["functions"]:
            if funcs.get(f) != "under contract":
                funcs[f] = kind
    trusted = set()
    for r in results:
        trusted |= set(r["trusted"])
    base = ["ded/: the verification-condition generator (AST transform, symbolic executor, numpy façade)", "z3 5.3.2, cvc5 1.1.2",
            "machine floats treated as mathematical reals (NaN modelled only where a contract introduces it)", "machine integers treated as mathematical integers",
            "CPython semantics of the statements executed natively"] + sorted("assumed contract of " + x for x in trusted)
    try:
        mod = importlib.import_module("contracts." + prop)
        assume = list(getattr(mod, "ASSUMPTIONS", []))
    except BaseException:
        assume = []
    names = {}
    for r in results:
        for o in r["obligations"]:
            names.setdefault(r["name"] + " / " + o["name"], o["status"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obls),
            "discharged": sum(o["status"] == "discharged" for o in obls),
            "checker_cmd": "python3-vt /verif/check.py %s" % prop,
            "trusted_base": base,
            "distinct_obligations": len(names),
            "obligations_of_bounded_contracts": {"generated": len(bounded), "discharged": sum(o["status"] == "discharged" for o in bounded),
                                                 "bounds": sorted(set(r["bounded"] for r in results if r.get("bounded")))},
            "functions": funcs,
            "contracts": [{"name": r["name"], "paths": r["paths"], "obligations": len(r["obligations"]), "loops_cut_at_invariants": r["loops"],
                           "reachability": r["covers"], "bounded": r.get("bounded"), "outside_subset": left_subset(r), "wall_s": round(r["wall"], 2)} for r in results],
            "back_ends": back,
            "solver_s": round(sum(o["time"] for o in obls) + sum(r.get("feasibility_time", 0) for r in results), 2),
            "feasibility_queries": sum(r.get("feasibility_queries", 0) for r in results),
            "contracts_proved": len(proved),
            "contracts_not_proved": outside,
            "problems": problems,
            "bounded_replay": {"evaluations": orc.get("ran", 0), "nontrivial": orc.get("nontrivial", 0), "rule": orc.get("rule", ""),
                               "seconds": orc.get("seconds", 0), "samples": orc.get("samples", [])[:2]},
        },
        "assumptions": assume + ["known finding: " + k[1] for k in known],
        "wall_s": round(wall, 2),
        "violations": viol,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
