"""Development helper: create and validate a planted bug under /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys
ENV=dict(os.environ, MPLCONFIGDIR="/opt/vp/mplconfig", MPLBACKEND="Agg")

def seed(id, prop, edits, demo, needs, breaks, test=True):
    """edits: list of (file relative to src/diffpy/srmise, old, new[, count])"""
    d = "/verif/seeded/%s" % id
    os.makedirs(d, exist_ok=True)
    w = "/tmp/seedrepo"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/tmp/w", w, symlinks=True)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD/src" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    def rundemo():
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=w, env=ENV, capture_output=True, text=True, timeout=250)
        return r.returncode, (r.stdout + r.stderr)[-1500:]
    rc0, out0 = rundemo()
    if rc0 != 0:
        print(id, "DEMO FAILS CLEAN", out0); return False
    for e in edits:
        f = os.path.join(w, "src/diffpy/srmise", e[0])
        s = open(f).read()
        assert s.count(e[1]) == (e[3] if len(e) > 3 else 1), (id, e[0], e[1], s.count(e[1]))
        open(f, "w").write(s.replace(e[1], e[2]))
    diff = subprocess.check_output(["git", "diff"], cwd=w, text=True)
    open(d + "/patch.diff", "w").write(diff)
    # changed lines must belong to the base commit
    for e in edits:
        f = "src/diffpy/srmise/" + e[0]
        base = subprocess.check_output(["git", "show", "dc98a55:" + f], cwd="/repo", text=True).splitlines()
        baseset = set(base)
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in baseset and l[1:].strip():
                print(id, "WARNING: removed line is not original:", l)
    rc1, out1 = rundemo()
    ok = rc1 != 0
    if ok and test:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider"], cwd=w, env=dict(ENV, PYTHONPATH=w + "/src"), capture_output=True, text=True)
        if r.returncode not in (0,):
            tail = r.stdout.splitlines()[-8:]
            print(id, "pytest rc", r.returncode, "\n".join(tail))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id, "ok" if ok else "DEMO DOES NOT FAIL", out1.strip().splitlines()[-1:] )
    shutil.rmtree(w, ignore_errors=True)
    return ok
