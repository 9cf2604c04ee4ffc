from .mp import *  # noqa: F401,F403
from .mp import Family, FamPart, MP, Owner, P1, real_part

ASSUMPTIONS = ["the running totals of a model's free parameters are monotonic (lemma; its induction step is an obligation)"]


@contract("C04", "ModelPart construction", functions=[P1 + "__init__"])
def init_contract(v):
    from diffpy.srmise.modelparts import ModelPart
    v.expect_covers("accepted", "refused")
    for kind in ("f", "i"):
        n, m, q = v.int("npars", 0), v.int("given", 0), v.int("flags", 0)
        pars, free = v.array("pars", m, kind), v.array("free", q, "b")
        r = v.call(ModelPart, Owner(n), pars, free, True, False)
        if not r.ok:
            v.prove("only a wrong number of parameters or flags is refused, with a value error", And(isinstance(r.exc, ValueError), Not(And(m == n, q == n))))
            v.cover("refused")
            continue
        v.cover("accepted")
        part = r.value
        v.prove("one parameter and one flag per parameter of the owner", And(m == n, q == n, num(part.pars.shape_[0]) == n, num(part.free.shape_[0]) == n))
        v.prove("parameters are kept at full floating-point value", And(part.pars.kind == "f", forall(1, lambda i: Implies(And(0 <= i, i < n), part.pars.at(i) == pars.at(i)))))
        v.prove("flags are kept as booleans", And(part.free.kind == "b", forall(1, lambda i: Implies(And(0 <= i, i < n), part.free.at(i) == free.at(i)))))
        v.prove("the part has its own arrays", part.pars.store is not pars.store and part.free.store is not free.store)


@contract("C04", "ModelPart construction, all free", functions=[P1 + "__init__"])
def init_free_contract(v):
    from diffpy.srmise.modelparts import ModelPart
    n = v.int("npars", 0)
    pars = v.array("pars", n)
    part = v.must("construct", ModelPart, Owner(n), pars)
    v.prove("every parameter is free unless told otherwise", And(num(part.free.shape_[0]) == n, forall(1, lambda i: Implies(And(0 <= i, i < n), part.free.at(i)))))


@contract("C04", "ModelPart.compress, npars", functions=[P1 + "compress", P1 + "npars"])
def compress_contract(v):
    s = real_part(v)
    p, n = s.part, s.n
    v.witness(lambda ev: part_case(ev, s))
    c = v.must("compress", p.compress)
    c = arr.asarr(c)
    nf, na = v.must("count", p.npars, count_fixed=False), v.must("count", p.npars)
    v.prove("all parameters are counted", num(na) == n)
    v.prove("the free count is the flattened length", num(nf) == c.shape_[0])
    sel = arr.selection(p.free)
    v.prove("flattening yields exactly the free parameters", And(num(c.shape_[0]) == sel.n, forall(1, lambda j: Implies(And(0 <= j, j < sel.n), c.at(j) == p.pars.at(sel.sel(j))))))
    v.prove("flattening changes nothing", unchanged(p, s))


def unchanged(p, s):
    return And(num(p.pars.shape_[0]) == s.n, num(p.free.shape_[0]) == s.n, forall(1, lambda i: Implies(And(0 <= i, i < s.n), And(p.pars.at(i) == s.pars0.at(i), p.free.at(i) == s.free0.at(i)))))


def part_case(ev, s, fp=None):
    n = min(8, ev(num(s.n)))
    d = {"parts": [{"pars": [ev(s.pars0.at(i)) for i in range(n)], "free": [bool(ev(s.free0.at(i))) for i in range(n)]}]}
    if fp is not None:
        d["vec"] = [ev(fp.at(j)) for j in range(min(12, ev(num(fp.shape_[0]))))]
    return d


def update_body(v, kind):
    s = real_part(v, kind)
    p, n = s.part, s.n
    m = v.int("m", 0)
    fp = v.array("vec", m)
    v.witness(lambda ev: part_case(ev, s, fp))
    sel = arr.selection(p.free)
    v.assume(num(m) >= sel.n)
    v.expect_covers("updated")
    k = v.must("update", p.update, fp)
    v.cover("updated")
    v.prove("update reports how many values it used", num(k) == sel.n)
    i = v.int("i", 0, n)
    v.prove("fixed parameters keep their values", Implies(Not(s.free0.at(i)), p.pars.at(i) == s.pars0.at(i)))
    v.prove("free parameters take the leading values in order", Implies(s.free0.at(i), p.pars.at(i) == fp.at(sel.rank(i))))
    v.prove("number of parameters and flags unchanged", And(num(p.pars.shape_[0]) == n, num(p.free.shape_[0]) == n, p.free.at(i) == s.free0.at(i)))
    c = arr.asarr(v.must("compress", p.compress))
    j = v.int("j", 0)
    v.assume(j < sel.n)
    v.prove("flattening afterwards returns what was written", And(num(c.shape_[0]) == sel.n, c.at(j) == fp.at(j)))
    v.prove("the vector itself is not changed", fp.store.ver == 0)


@contract("C04", "ModelPart.update", functions=[P1 + "update", P1 + "compress"])
def update_contract(v):
    update_body(v, "f")


@contract("C04", "ModelPart.update, parameters given as integers", functions=[P1 + "update", P1 + "compress"])
def update_contract_int(v):
    update_body(v, "i")


def npars_loop():
    sp = LoopSpec(lambda env: [("the total so far", num(env.n) == (env.g.offall(env.k) if env.g.all else env.g.off(env.k)))], vars={"n": "int"})
    return {(MP + "npars", "for", 0): sp}


@contract("C04", "ModelParts.npars", functions=[MP + "npars"], loops=npars_loop)
def npars_contract(v):
    F = Family(v)
    F.all = bool(v.bool("count_fixed"))
    v.p.state["ghost"] = F
    v.p.state["offsets"] = F.off
    ps = F.parts()
    n = v.must("count", type(ps).npars, ps, count_fixed=F.all)
    v.prove("counts are the sums over the parts", num(n) == (F.offall(F.M) if F.all else F.off(F.M)))


@contract("C04", "ModelParts.unpack_freepars", functions=[MP + "unpack_freepars"])
def unpack_contract(v):
    F = Family(v)
    v.p.state["offsets"] = F.off
    ps = F.parts()
    v.expect_covers("empty", "parts")
    x = arr.asarr(v.must("flatten", type(ps).unpack_freepars, ps))
    v.cover("empty" if not isinstance(x.shape_[0], SNum) else "parts")
    v.prove("the flattened length is the free count", num(x.shape_[0]) == F.off(F.M))
    k, j = v.int("k", 0, F.M), v.int("j", 0)
    v.assume(j < F.nf(k))
    v.prove("free parameters of the parts in order", x.at(F.off(k) + j) == F.val0(k, j))


def pack_loop():
    def inv(env):
        F, k = env.g, env.k
        fp = arr.asarr(env.freepars)
        return [("position in the vector", num(env.freeidx) == F.off(k)),
                ("parts done have their values, the others their old ones", forall(2, lambda i, j: Implies(And(0 <= i, i < F.M, 0 <= j, j < F.nf(i)),
                    F.val(i, j) == sym.ite(num(i) < k, fp.at(F.off(i) + j), F.val0(i, j)))))]

    def havoc(env):
        f = z3.Function(core.path().name("val_k"), sym.I, sym.I, sym.R)
        env.g.val = lambda i, j: SNum(f(t(i), t(j)))
    return {(MP + "pack_freepars", "for", 0): LoopSpec(inv, vars={"freeidx": "int"}, havoc=havoc)}


@contract("C04", "ModelParts.pack_freepars", functions=[MP + "pack_freepars"], loops=pack_loop)
def pack_contract(v):
    F = Family(v)
    v.p.state["ghost"] = F
    v.p.state["offsets"] = F.off
    ps = F.parts()
    m = v.int("m", 0)
    fp = v.array("vec", m, nan=True)
    v.expect_covers("written", "rejected")
    v.assume(num(m) >= F.off(F.M))
    r = v.call(type(ps).pack_freepars, ps, fp)
    anynan = Not(forall(1, lambda i: Implies(And(0 <= i, i < m), Not(SBool(fp.at(i).nan)))))
    if not r.ok:
        v.cover("rejected")
        v.prove("only vectors with not-a-number are rejected, with a value error", And(isinstance(r.exc, ValueError), anynan))
        v.prove("a rejected vector changes nothing", F.val is F.val0)
        return
    v.cover("written")
    v.prove("a vector with not-a-number is never written", Not(anynan))
    k, j = v.int("k", 0, F.M), v.int("j", 0)
    v.assume(j < F.nf(k))
    v.prove("every free parameter takes its entry, in flattening order", F.val(k, j) == fp.at(F.off(k) + j))
    x = arr.asarr(v.must("flatten", type(ps).unpack_freepars, ps))
    q = v.int("q", 0)
    v.prove("flattening afterwards returns what was written", And(num(x.shape_[0]) == F.off(F.M), x.at(F.off(k) + j) == fp.at(F.off(k) + j)))


@contract("C04", "running totals", functions=[])
def lemma_offsets(v):
    F = Family(v)
    j, k = v.int("j", 0), v.int("k", 0)
    v.assume(And(j <= k, num(k) + 1 <= F.M, F.off(j) <= F.off(k)))
    v.prove("induction step: totals never decrease", F.off(j) <= F.off(num(k) + 1))
