"""Nonlinear real arithmetic with function symbols replaced by variables."""
import z3


def purify(fs):
    """Replace uninterpreted applications by fresh variables (plus congruence instances)."""
    cache, apps = {}, []

    def walk(e):
        i = e.get_id()
        if i in cache:
            return cache[i][1]
        if z3.is_quantifier(e):
            r = e
        elif z3.is_app(e):
            ch = [walk(c) for c in e.children()]
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                v = z3.FreshConst(e.sort(), "u")
                apps.append((e.decl(), ch, v))
                r = v
            else:
                r = e.decl()(*ch) if ch else e
        else:
            r = e
        cache[i] = (e, r)
        return r
    out = [walk(f) for f in fs]
    for i in range(len(apps)):
        for j in range(i):
            if apps[i][0].eq(apps[j][0]):
                out.append(z3.Implies(z3.And(*[a == b for a, b in zip(apps[i][1], apps[j][1])]), apps[i][2] == apps[j][2]))
    return out


def entails(fs, timeout_ms):
    """True when fs is unsatisfiable."""
    try:
        g = purify(fs)
        for mk in (lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra-nlsat").solver(),
                   lambda: z3.SolverFor("QF_NIRA"), lambda: z3.Then("simplify", "purify-arith", "elim-term-ite", "qfnra").solver()):
            s = mk()
            s.set("timeout", timeout_ms // 2)
            s.add(*g)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return True
            if r == z3.sat:
                return False
    except z3.Z3Exception:
        pass
    return None
