"""Loads the real sources of /repo with a mechanical AST transform.

Dropped or changed by the transform (and nothing else):
 * ``import numpy`` binds the numpy façade of ded.arr;
 * loops go through __vc.loop_* (native when nothing symbolic drives them,
   cut at their invariant otherwise);
 * builtins in call position (len, range, sum, ...) go through __vc.b_*;
 * ``is`` / ``is not``, ``%``, ``.indices(``, ``.join(``, ``.extend(``, ``.split(``, empty lists and comprehensions go through __vc;
 * a bare ``except:`` does not see the verifier's own control exceptions.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO_SRC = os.environ.get("VERIF_REPO", "/repo") + "/src"

BUILTINS = {"len", "type", "range", "isinstance", "sum", "min", "max", "int", "float", "bool", "enumerate", "zip", "reversed",
            "sorted", "list", "tuple", "any", "all", "abs", "eval", "map", "filter", "round", "set", "divmod", "open",
            "iter", "next", "complex"}


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def vc(attr):
    return ast.Attribute(value=name("_vc_"), attr=attr, ctx=ast.Load())


def call(attr, *args):
    return ast.Call(func=vc(attr), args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


def assigned_names(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split(".")[0]
                if nm not in out:
                    out.append(nm)

        visit_ImportFrom = visit_Import
    v = V()
    for n in nodes:
        v.visit(n)
    return out


MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "setdefault", "add"}


def mutated_names(nodes):
    """Local names whose object is visibly changed in place (method call, item assignment)."""
    out = []
    for n in nodes:
        for x in ast.walk(n):
            r = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                r = x.func.value
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                r = x.value
            if isinstance(r, ast.Name) and r.id not in out and r.id not in ("self", "cls"):
                out.append(r.id)
    return out


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []
        self.counters = [{}]
        self.uid = 0
        self.infunc = 0
        self.globals_decl = [set()]
        self.locals_ = [set()]

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        n.body = [self.visit(b) for b in n.body]
        n.body = _flat(n.body)
        self.scope.pop()
        return n

    def visit_FunctionDef(self, n):
        self.scope.append(n.name)
        self.counters.append({})
        self.infunc += 1
        decl = set()
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                decl |= set(x.names)
        self.globals_decl.append(decl)
        a = n.args
        self.locals_.append(set(x.arg for x in a.args + a.kwonlyargs + a.posonlyargs) | (set(assigned_names(n.body)) - decl))
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = _flat([self.visit(b) for b in n.body])
        self.globals_decl.pop()
        self.locals_.pop()
        self.infunc -= 1
        self.counters.pop()
        self.scope.pop()
        return n

    def visit_Lambda(self, n):
        n.body = self.visit(n.body)
        return n

    # imports
    def visit_Import(self, n):
        out = []
        for a in n.names:
            if a.name == "numpy" or (a.name.startswith("numpy.") and not a.asname):
                out.append(ast.Assign(targets=[name((a.asname or "numpy"), ast.Store())], value=vc("NP")))
            else:
                out.append(ast.Import(names=[a]))
        return out

    def visit_ImportFrom(self, n):
        if n.module == "numpy" and n.level == 0:
            return [ast.Assign(targets=[name(a.asname or a.name, ast.Store())],
                               value=ast.Attribute(value=vc("NP"), attr=a.name, ctx=ast.Load())) for a in n.names]
        return n

    # expressions
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in BUILTINS:
            n.func = vc("b_" + n.func.id)
        elif isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            pass
        elif any(isinstance(a, ast.Starred) for a in n.args) and self.infunc:
            n.args = [ast.Starred(value=call("star", a.value), ctx=ast.Load()) if isinstance(a, ast.Starred) else a for a in n.args]
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "indices" and len(n.args) == 1 and not n.keywords:
            return call("indices", n.func.value, n.args[0])
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            return call("join", n.func.value, n.args[0])
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "split" and len(n.args) <= 1 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            return call("split", n.func.value, *n.args)
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "splitlines" and not n.args and not n.keywords:
            return call("split", n.func.value, ast.Constant("\n"), ast.Constant("lines"))
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "extend" and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            return call("extend", n.func.value, n.args[0])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            return call("is_" if isinstance(n.ops[0], ast.Is) else "is_not", n.left, n.comparators[0])
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return call("in_" if isinstance(n.ops[0], ast.In) else "not_in", n.left, n.comparators[0])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return call("mod", n.left, n.right)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if self.infunc and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(n.value, ast.List) and not n.value.elts:
            n.value = call("newlist", ast.Constant(self.mod + "." + ".".join(self.scope)), ast.Constant(ast.unparse(n.targets[0])))
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            tgt = n.target
            load = ast.parse(ast.unparse(tgt), mode="eval").body
            return ast.Assign(targets=[tgt], value=call("mod", load, n.value))
        return n

    def _comp(self, n, elt_builder, kind):
        if len(n.generators) > 1 and not any(g.is_async for g in n.generators):
            # [e for a in A for b in B] == chain([[e for b in B] for a in A])
            inner = ast.ListComp(elt=n.elt, generators=n.generators[1:])
            outer = ast.ListComp(elt=inner, generators=n.generators[:1])
            return call("chain", self.visit(ast.fix_missing_locations(ast.copy_location(outer, n))), const(kind))
        g = n.generators[0]
        tgt = g.target
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.generic_visit(n)
                return n
        # inside a class body a lambda could not see class names: leave native
        if self.scope and not self.infunc:
            self.generic_visit(n)
            return n
        self.uid += 1
        names = self._params(tgt)
        if names is None:
            self.generic_visit(n)
            return n

        def lam(e):
            if isinstance(tgt, ast.Name):
                return _lambda([tgt.id], e)
            v = "_vc_e%d" % self.uid
            # (lambda e: (lambda a, b: elt)(*unpacked))(e)
            return _lambda([v], ast.Call(func=_lambda(names, e),
                                         args=[ast.Starred(value=call("unpack", name(v), _pattern(tgt)), ctx=ast.Load())], keywords=[]))
        elt = lam(self.visit(elt_builder))
        if g.ifs:
            conds = [self.visit(c) for c in g.ifs]
            cond = conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)
            cond = lam(cond)
        else:
            cond = const(None)
        it = self.visit(g.iter)
        return call("comp", elt, it, cond, const(kind))

    def _params(self, tgt):
        if isinstance(tgt, ast.Name):
            return [tgt.id]
        if isinstance(tgt, (ast.Tuple, ast.List)):
            out = []
            for e in tgt.elts:
                s = self._params(e)
                if s is None:
                    return None
                out += s
            return out
        return None

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys and self.infunc:
            return call("newdict")
        return n

    def visit_ListComp(self, n):
        return self._comp(n, n.elt, "list")

    def visit_GeneratorExp(self, n):
        return self._comp(n, n.elt, "gen")

    # statements
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = name("Exception")
        return n

    def _key(self, kind):
        c = self.counters[-1]
        c[kind] = c.get(kind, 0) + 1
        return (self.mod + "." + ".".join(self.scope), kind, c[kind] - 1)

    def visit_While(self, n):
        if not self.infunc:
            self.generic_visit(n)
            return n
        key = self._key("while")
        self.uid += 1
        lp = "_vc_lp%d" % self.uid
        names = [x for x in assigned_names(n.body + [n.test]) if x not in self.globals_decl[-1]]
        mut = [x for x in mutated_names(n.body + [n.test]) if x not in names and x in self.locals_[-1]]
        saved = dict(self.counters[-1])
        test = self.visit(n.test)
        body = _flat([self.visit(b) for b in n.body])
        orelse = _flat([self.visit(b) for b in n.orelse])
        native = ast.While(test=ast.BoolOp(op=ast.And(), values=[call("tick", name(lp)), test]), body=body, orelse=orelse)
        # second copy of the body for the cut loop
        import copy
        test2, body2, orelse2 = copy.deepcopy(test), copy.deepcopy(body), copy.deepcopy(orelse)
        enter = ast.Assign(targets=[name(lp, ast.Store())],
                           value=call("while_enter", const(key), call_locals(), const(tuple(names)), const(tuple(mut))))
        cut = self._havoc(lp, names + mut) + [
            ast.If(test=test2,
                   body=[ast.For(target=name("_vc_once", ast.Store()), iter=ast.Tuple(elts=[const(1)], ctx=ast.Load()), body=body2,
                                 orelse=[ast.Expr(ast.Call(func=ast.Attribute(value=name(lp), attr="end", ctx=ast.Load()), args=[call_locals()], keywords=[]))],
                                 type_comment=None)],
                   orelse=[ast.Expr(ast.Call(func=ast.Attribute(value=name(lp), attr="exit", ctx=ast.Load()), args=[call_locals()], keywords=[]))] + orelse2)]
        return [enter, ast.If(test=ast.Attribute(value=name(lp), attr="native", ctx=ast.Load()), body=[native], orelse=cut)]

    def _havoc(self, lp, names):
        out = [ast.Assign(targets=[name("_vc_hv", ast.Store())],
                          value=ast.Call(func=ast.Attribute(value=name(lp), attr="havoc", ctx=ast.Load()), args=[call_locals()], keywords=[]))]
        for x in names:
            out.append(ast.Assign(targets=[name(x, ast.Store())],
                                  value=ast.Subscript(value=name("_vc_hv"), slice=const(x), ctx=ast.Load())))
        return out

    def visit_For(self, n):
        if not self.infunc:
            self.generic_visit(n)
            return n
        key = self._key("for")
        self.uid += 1
        lp, itn = "_vc_lp%d" % self.uid, "_vc_it%d" % self.uid
        names = [x for x in assigned_names([n.target] + n.body) if x not in self.globals_decl[-1]]
        mut = [x for x in mutated_names(n.body) if x not in names and x in self.locals_[-1]]
        it = self.visit(n.iter)
        target = n.target
        self.generic_visit(target)
        body = _flat([self.visit(b) for b in n.body])
        orelse = _flat([self.visit(b) for b in n.orelse])
        import copy
        native = ast.For(target=target, iter=call("iter_native", name(itn)), body=body, orelse=orelse, type_comment=None)
        body2, orelse2, target2 = copy.deepcopy(body), copy.deepcopy(orelse), copy.deepcopy(target)
        pre = [ast.Assign(targets=[name(itn, ast.Store())], value=it),
               ast.Assign(targets=[name(lp, ast.Store())],
                          value=call("for_enter", const(key), name(itn), call_locals(), const(tuple(names)), const(tuple(mut))))]
        m = lambda a, *args: ast.Call(func=ast.Attribute(value=name(lp), attr=a, ctx=ast.Load()), args=list(args), keywords=[])
        cut = self._havoc(lp, names + mut) + [
            ast.If(test=m("more"),
                   body=[ast.Assign(targets=[target2], value=m("item")),
                         ast.For(target=name("_vc_once", ast.Store()), iter=ast.Tuple(elts=[const(1)], ctx=ast.Load()), body=body2,
                                 orelse=[ast.Expr(m("end", call_locals()))], type_comment=None)],
                   orelse=[ast.Expr(m("exit", call_locals()))] + orelse2)]
        return pre + [ast.If(test=ast.Attribute(value=name(lp), attr="native", ctx=ast.Load()), body=[native], orelse=cut)]


def call_locals():
    return ast.Call(func=name("locals"), args=[], keywords=[])


def _pattern(t):
    if isinstance(t, ast.Name):
        return const(1)
    return ast.Tuple(elts=[_pattern(e) for e in t.elts], ctx=ast.Load())


def _lambda(names, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


def _flat(nodes):
    out = []
    for n in nodes:
        if isinstance(n, list):
            out += n
        elif n is not None:
            out.append(n)
    return out


def transform_source(src, modname, filename):
    tree = ast.parse(src, filename)
    # drop the script part
    tree.body = [b for b in tree.body if not (isinstance(b, ast.If) and "__main__" in ast.dump(b.test))]
    t = Transform(modname)
    tree.body = _flat([t.visit(b) for b in tree.body])
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, is_pkg):
        self.fullname, self.path, self.is_pkg = fullname, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import vcrt
        module.__dict__["_vc_"] = vcrt.VC
        with open(self.path) as f:
            src = f.read()
        exec(transform_source(src, self.fullname, self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname == "diffpy":
            spec = importlib.machinery.ModuleSpec("diffpy", None, is_package=True)
            spec.submodule_search_locations = [REPO_SRC + "/diffpy"]
            return spec
        if not (fullname == "diffpy.srmise" or fullname.startswith("diffpy.srmise.")):
            return None
        p = os.path.join(REPO_SRC, *fullname.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f, True), submodule_search_locations=[p])
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f, False))
        return None


class _Stub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()


class _Any:
    def __call__(self, *a, **k):
        return _Any()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()


def install():
    for m in ("matplotlib", "matplotlib.pyplot", "matplotlib.ticker", "matplotlib.gridspec", "matplotlib.lines", "mpl_toolkits",
              "mpl_toolkits.axisartist", "mpl_toolkits.axes_grid1", "mpl_toolkits.axes_grid1.inset_locator", "mpl_toolkits.mplot3d",
              "matplotlib.cm", "matplotlib.colors", "matplotlib.collections", "matplotlib.patches"):
        if m not in sys.modules:
            sys.modules[m] = _Stub(m)
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
