"""Loads turbustat.* from the repository's current source for verification.

Every module is read from disk on each run, its `for` statements are given a
second, symbolic form (used only when the iterable has a symbolic length; the
body is the same statements), its `while` statements one that is used only where
a contract gives a loop invariant (same test and body), list comprehensions over
one iterable without a condition and generators that only yield from one loop are
written as maps of the same expression, and the names of external libraries are bound to
their stand-ins.  Nothing else of the text is changed."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import types
import random as _random
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "turbustat"


def mapping(target, expr):
    """lambda x: expr with the loop target bound to x, or None"""
    if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(expr)):
        return None
    if isinstance(target, ast.Name):
        f = ast.parse("lambda %s: 0" % target.id, mode="eval").body
        f.body = expr
        return f
    if isinstance(target, ast.Tuple) and all(isinstance(x, ast.Name) for x in target.elts):
        f = ast.parse("lambda _vcz_t: (lambda %s: 0)(*_vcz_t)" % ", ".join(x.id for x in target.elts), mode="eval").body
        f.body.func.body = expr
        return f
    return None


MUTATORS = ("append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault")


class LoopTransformer(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.n = 0
        self.infn = 0
        self.globals_decl = [set()]
        self.locals = [set()]
        self.whiles = [["", 0]]

    def visit_FunctionDef(self, node):
        self.infn += 1
        g = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                g |= set(x.names)
        self.globals_decl.append(g)
        a = node.args
        self.locals.append(self.assigned(ast.Module(body=node.body, type_ignores=[])) - g |
                           {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]})
        self.whiles.append([node.name, 0])
        self.generator(node)
        self.generic_visit(node)
        self.whiles.pop()
        self.globals_decl.pop()
        self.locals.pop()
        self.infn -= 1
        return node

    @staticmethod
    def generator(node):
        """a generator that ends in `for t in it: yield e` and yields nowhere else
        returns the same elements as a mapped iterable"""
        ys = [x for s in node.body for x in ast.walk(s) if isinstance(x, (ast.Yield, ast.YieldFrom))]
        last = node.body[-1]
        if len(ys) != 1 or not isinstance(last, ast.For) or last.orelse or len(last.body) != 1:
            return
        st = last.body[0]
        if not isinstance(st, ast.Expr) or not isinstance(st.value, ast.Yield) or st.value.value is None:
            return
        f = mapping(last.target, st.value.value)
        if f is None or any(isinstance(x, ast.Return) for s in node.body for x in ast.walk(s)):
            return
        call = ast.parse("_vcz_gen(0, 0)", mode="eval").body
        call.args = [last.iter, f]
        node.body[-1] = ast.copy_location(ast.Return(value=call), last)

    def visit_ListComp(self, node):
        if not self.infn or len(node.generators) != 1 or node.generators[0].ifs or node.generators[0].is_async:
            return self.generic_visit(node)
        g = node.generators[0]
        f = mapping(g.target, node.elt)
        if f is None:
            return self.generic_visit(node)
        call = ast.parse("_vcz_comp(0, 0)", mode="eval").body
        call.args = [self.visit(g.iter), f]
        return ast.copy_location(call, node)

    def visit_ClassDef(self, node):
        save, self.infn = self.infn, 0
        self.generic_visit(node)
        self.infn = save
        return node

    def visit_Lambda(self, node):
        return node

    def visit_Import(self, node):
        if not self.infn:
            return node
        out = [node]
        for a in node.names:
            nm = a.asname or a.name.split(".")[0]
            out += ast.parse("%s = _vcz_sub(%s)" % (nm, nm)).body
        return out

    def visit_ImportFrom(self, node):
        if not self.infn:
            return node
        out = [node]
        for a in node.names:
            nm = a.asname or a.name
            if nm != "*":
                out += ast.parse("%s = _vcz_sub(%s)" % (nm, nm)).body
        return out

    def visit_For(self, node):
        if not self.infn:
            return node
        flags = self.flags(node)
        self.n += 1
        i = self.n
        names = sorted((self.assigned(node) | self.mutated(node) & self.locals[-1]) - self.globals_decl[-1])
        import copy
        conc = copy.deepcopy(node)
        self.generic_visit(conc)
        itn = "_vcz_it%d" % i
        out = [ast.Assign(targets=[ast.Name(itn, ast.Store())], value=node.iter)]
        conc.iter = ast.Name(itn, ast.Load())
        if flags:
            symb = ast.parse("_vcz_symloop(_vcz_symiter(%s), None, {}, None, [], %r)" % (itn, flags)).body
        else:
            body = copy.deepcopy(node)
            body.body = [ContinueToReturn().visit(s) for s in body.body]
            bm = ast.Module(body=body.body, type_ignores=[])
            bm = GuardMutation().visit(bm)
            self.generic_visit(bm)
            arg = "_vcz_x%d" % i
            fdef = ast.parse("def _vcz_body%d(%s):\n    pass" % (i, arg)).body[0]
            asg = ast.Assign(targets=[body.target], value=ast.Name(arg, ast.Load()))
            fdef.body = ([ast.Nonlocal(names=list(names))] if names else []) + [asg] + bm.body
            src = "def _vcz_set%d(__n, __v):\n" % i
            if names:
                src += "    nonlocal %s\n" % ", ".join(names)
            src += "    pass\n"
            for nm in names:
                src += "    if __n == %r: %s = __v\n" % (nm, nm)
            sdef = ast.parse(src).body[0]
            call = "_vcz_symloop(_vcz_symiter(%s), _vcz_body%d, {%s}, _vcz_set%d, %r, '')" % (
                itn, i, ", ".join("%r: (lambda: %s)" % (nm, nm) for nm in names), i, names)
            symb = [fdef, sdef] + ast.parse(call).body
        test = ast.parse("_vcz_issym(%s)" % itn, mode="eval").body
        out.append(ast.If(test=test, body=symb, orelse=[conc]))
        return out

    def visit_While(self, node):
        """with a loop invariant given by the contract: entry, one arbitrary
        iteration, exit; else the loop as it is"""
        if not self.infn or node.orelse:
            return self.generic_visit(node)
        self.n += 1
        i = self.n
        k = self.whiles[-1][1]
        self.whiles[-1][1] += 1
        fn = self.whiles[-1][0]
        names = sorted(self.assigned(node) - self.globals_decl[-1])
        import copy
        conc = copy.deepcopy(node)
        self.generic_visit(conc)
        body = copy.deepcopy(node)
        self.whiles.append([fn + ".inner", 0])
        self.generic_visit(body)
        self.whiles.pop()
        w = "_vcz_w%d" % i
        out = ast.parse("%s = _vcz_while(%r, %d)" % (w, fn, k)).body
        get = "{%s}" % ", ".join("%r: (lambda: %s)" % (nm, nm) for nm in names)
        src = "%s.enter(%s)\n" % (w, get)
        src += "".join("%s = %s.havoc(%r)\n" % (nm, w, nm) for nm in names)
        src += "%s.invariant(%s)\n" % (w, get)
        src += ("if {w}.iterate():\n    {w}.need(0)\n    for _vcz_o{i} in (0,):\n        pass\n    else:\n"
                "        {w}.done({get})\nelse:\n    {w}.need(0)\n").format(w=w, i=i, get=get)
        sym = ast.parse(src).body
        br = sym[-1]
        br.body[0].value.args = [copy.deepcopy(body.test)]
        br.body[1].body = body.body
        br.orelse[0].value.args = [ast.UnaryOp(op=ast.Not(), operand=copy.deepcopy(body.test))]
        out.append(ast.If(test=ast.parse("%s is not None" % w, mode="eval").body, body=sym, orelse=[conc]))
        return out

    @staticmethod
    def mutated(node):
        """names whose methods are called: a list may grow"""
        return {x.func.value.id for x in ast.walk(node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                and isinstance(x.func.value, ast.Name) and x.func.attr in MUTATORS} | \
               {x.value.id for x in ast.walk(node) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store)
                and isinstance(x.value, ast.Name)}

    @staticmethod
    def assigned(node):
        out = set()
        todo = [node]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
                continue
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    out.add((a.asname or a.name).split(".")[0])
            if isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            todo.extend(ast.iter_child_nodes(x))
        return out

    @staticmethod
    def flags(node):
        fl = set()

        def scan(x, inloop):
            for y in ast.iter_child_nodes(x):
                if isinstance(y, (ast.FunctionDef, ast.Lambda)):
                    continue
                if isinstance(y, ast.Return):
                    fl.add("return")
                if isinstance(y, (ast.Yield, ast.YieldFrom, ast.Await)):
                    fl.add("yield")
                if isinstance(y, ast.Break) and not inloop:
                    fl.add("break")
                if isinstance(y, ast.Continue) and inloop is False:
                    pass
                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                    fl.add("attribute assignment")
                if isinstance(y, ast.Name) and y.id in ("super", "__class__"):
                    fl.add("super")
                scan(y, inloop or isinstance(y, (ast.For, ast.While)))
        for s in node.body:
            m = ast.Module(body=[s], type_ignores=[])
            scan(m, False)
        if node.orelse:
            fl.add("else")
        return ", ".join(sorted(fl))


class ContinueToReturn(ast.NodeTransformer):
    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(value=None), node)

    def visit_For(self, node):
        return node

    def visit_While(self, node):
        return node

    def visit_FunctionDef(self, node):
        return node


class GuardMutation(ast.NodeTransformer):
    """in the symbolic form of a loop body: a method that changes a container which
    is not a local name is looked up through a guard (it refuses to be called)"""

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS and not isinstance(f.value, ast.Name):
            g = ast.parse("_vcz_guard(0, %r)" % f.attr, mode="eval").body
            g.args[0] = f.value
            node.func = ast.copy_location(g, f)
        return node

    def visit_FunctionDef(self, node):
        return node
    visit_Lambda = visit_FunctionDef


def guard(o, attr):
    if isinstance(o, (list, dict, set, bytearray)):
        from .core import Unsupported
        raise Unsupported("symbolic loop that changes a container which is not a local name")
    return getattr(o, attr)


SUBST = {}       # id(real object) -> (real, stand-in)


def substitute(real, fake):
    SUBST[id(real)] = (real, fake)


def vc_sub(x):
    e = SUBST.get(id(x))
    return e[1] if e is not None and e[0] is x else x


def vc_issym(it):
    from . import rt
    s = rt.sym_iter(it) if isinstance(it, (rt.Sym, rt.SIter)) else None
    return s is not None and not isinstance(s.n, int)


def make_builtins():
    from . import rt
    d = dict(builtins.__dict__)
    d.update(rt.OVERRIDES)
    return d


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root):
        self.root = root
        self.loaded = {}

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.replace(".", "/")
        d = os.path.join(self.root, rel)
        if os.path.isfile(os.path.join(d, "__init__.py")):
            fn, pkg = os.path.join(d, "__init__.py"), [d]
        elif os.path.isfile(d + ".py"):
            fn, pkg = d + ".py", None
        else:
            if name in ("turbustat.version", "turbustat.cython_version"):
                return importlib.util.spec_from_loader(name, self, origin="<generated>")
            return None
        spec = importlib.util.spec_from_file_location(name, fn, loader=self,
                                                      submodule_search_locations=pkg)
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        if fn == "<generated>":
            module.version = module.__version__ = "0"
            return
        src = open(fn).read()
        module.__dict__["__builtins__"] = make_builtins()
        from . import rt
        module.__dict__.update(_vcz_symloop=rt.symloop, _vcz_issym=vc_issym,
                               _vcz_symiter=rt.sym_iter, _vcz_sub=vc_sub,
                               _vcz_while=rt.while_spec, _vcz_gen=rt.gen_map, _vcz_comp=rt.comp_map, _vcz_guard=guard)
        if module.__name__ == PKG:
            # the package initialiser only sets version information
            module.__dict__["__version__"] = "0"
            return
        tree = ast.parse(src, fn)
        if module.__name__.endswith("__init__") is False or True:
            tree = LoopTransformer().visit(tree)
            ast.fix_missing_locations(tree)
        code = compile(tree, fn, "exec")
        exec(code, module.__dict__)
        self.loaded[module.__name__] = fn
        for k, v in list(module.__dict__.items()):
            if k.startswith("__"):
                continue
            n = vc_sub(v)
            if n is not v:
                module.__dict__[k] = n


def install(root=None):
    from . import stubs          # registers the stand-ins
    f = Finder(root or REPO)
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[m]
    sys.meta_path.insert(0, f)
    return f
