"""Developer tool: run the contracts of one property in-process and print the obligations."""
import importlib, sys, collections
sys.path.insert(0, "/verif")
from ded import contract, hook
hook.install()
prop = sys.argv[1]
sel = sys.argv[2] if len(sys.argv) > 2 else ""
importlib.import_module("contracts." + prop)
for c in contract.REGISTRY[prop]:
    if sel not in c.name:
        continue
    r = contract.run_contract(c)
    cnt = collections.Counter(o["status"] for o in r["obligations"])
    print("==", c.name, dict(cnt), "paths", r["paths"], "wall %.1f feas %.1f/%d" % (r["wall"], r["feasibility_time"], r["feasibility_queries"]))
    for o in r["obligations"]:
        if o["status"] not in ("discharged",):
            print("   ", o["status"], o["name"], o["path"], o["detail"][:600])
        elif o["time"] > 3:
            print("    slow", o["name"], o["time"], o["backend"])
    print("   covers", r["covers"])
    for k in ("unsupported", "error", "budget"):
        if r[k]:
            print("   ", k, r[k]); print(r.get("tb", ""))
