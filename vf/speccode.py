"""Reference definitions written as plain numpy code, run through the same symbolic
semantics as the code of the repository (so that a random draw inside a loop is the
same unknown number in both)."""
import ast
import textwrap
from . import loader, nps


def load(src, **names):
    from . import rt, rng, stubs
    ns = {"__builtins__": loader.make_builtins(), "np": nps.np_shim, "__name__": "spec"}
    ns.update(_vcz_symloop=rt.symloop, _vcz_issym=loader.vc_issym, _vcz_symiter=rt.sym_iter, _vcz_sub=loader.vc_sub,
              _vcz_while=rt.while_spec, _vcz_gen=rt.gen_map, _vcz_comp=rt.comp_map, _vcz_guard=loader.guard)
    ns.update(names)
    tree = loader.LoopTransformer().visit(ast.parse(textwrap.dedent(src), "<spec>"))
    ast.fix_missing_locations(tree)
    exec(compile(tree, "<spec>", "exec"), ns)
    for k, v in list(ns.items()):
        if not k.startswith("_"):
            n = loader.vc_sub(v)
            if n is not v:
                ns[k] = n
    return ns
