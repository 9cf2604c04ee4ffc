import ast, glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import claims
out = [open(os.path.join(H, "tools/design_head.md")).read(), "## Properties\n"]
kf = open(os.path.join(H, "known_findings.txt")).read().splitlines()
seeds = {}
res = {}
rf = os.path.join(H, "tools/seed_results.txt")
if os.path.exists(rf):
    for l in open(rf):
        p = l.split()
        if p: res[p[0]] = " ".join(p[1:])
for f in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    m = json.load(open(f)); m["id"] = os.path.basename(os.path.dirname(f)); seeds.setdefault(m["property"], []).append(m)
def contracts(p):
    f = os.path.join(H, "contracts", p + ".py")
    if not os.path.exists(f): return []
    o = []
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract":
                    a = [ast.unparse(x) for x in d.args]
                    kw = {k.arg: ast.unparse(k.value) for k in d.keywords}
                    o.append((a[1] if len(a) > 1 else kw.get("name", ""), kw.get("bounded")))
    return o
for l in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(l); p = d["id"]
    out.append("### %s %s\n" % (p, d["title"]))
    out.append(d["statement"] + "\n")
    if p in claims.CLAIMS:
        out.append("**Decided by** contracts on the real functions (`contracts/%s.py`), oracle `oracles/%s.py` for replay. %s\n" % (p, p, claims.CLAIMS[p].replace(claims.REAL, "")))
        src = open(os.path.join(H, "oracles", p + ".py")).read()
        m = re.search(r'^RULE = "(.*)"', src, re.M)
        if m: out.append("Replay: %s.\n" % m.group(1))
        cs = contracts(p)
        if cs: out.append("Contracts: " + "; ".join(n.strip("'\"") + (" [bounded: %s]" % b.strip("'\"") if b and b != "None" else "") for n, b in cs) + ".\n")
        x = getattr(claims, "DESIGN", {}).get(p)
        if x: out.append(x + "\n")
    else:
        out.append("**Not claimed**: " + claims.NOT.get(p, "no contract for it has been built yet") + ".\n")
    for ln in kf:
        m = re.match(r"(fixed|finding): property=%s (.*)" % p, ln)
        if m: out.append("* %s: %s" % (m.group(1), m.group(2)))
    for m in seeds.get(p, []):
        out.append("* planted bug `%s` (%s; needs %s): %s" % (m["id"], m["what_it_breaks"], m["needs"], res.get(m["id"], "not run yet")))
    out.append("")
f = os.path.join(H, "tools/design_tail.md")
if os.path.exists(f): out.append(open(f).read())
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))
