"""Helpers to write contracts."""
import sys
import z3
from . import core, values as V
from .core import Ctx, Unsupported, Infeasible, Budget, And_, Or_, Not_, zb
from .values import *

_installed = None


def install():
    global _installed
    if _installed is None:
        from . import loader
        _installed = loader.install()
    return _installed


class Contract:
    """One function under contract.  fn(ctx) builds the inputs, calls the real
    function and states the obligations."""

    def __init__(self, name, target, fn, **opts):
        self.name, self.target, self.fn, self.opts = name, target, fn, opts


class Suite:
    def __init__(self, prop):
        self.prop = prop
        self.contracts = []

    def contract(self, target, name=None, **opts):
        def deco(fn):
            self.contracts.append(Contract(name or fn.__name__, target, fn, **opts))
            return fn
        return deco


def outcome(f, *a, **k):
    """('ok', value) or ('exc', exception)"""
    try:
        return "ok", f(*a, **k)
    except (Unsupported, Infeasible, Budget):
        raise
    except Exception as e:
        if _artefact(e):
            raise Unsupported("%s: %s" % (type(e).__name__, e))
        return "exc", e


def _artefact(e):
    """an exception that may come from a symbolic value reaching code that has
    no rule for it, rather than from the code under contract"""
    import linecache
    fr = e.__traceback__
    if fr is None:
        return False
    while fr.tb_next is not None:
        fr = fr.tb_next
    fn = fr.tb_frame.f_code.co_filename
    line = linecache.getline(fn, fr.tb_lineno).strip()
    if line.startswith("raise") or isinstance(e, (ZeroDivisionError, KeyError, IndexError)):
        return False
    if isinstance(e, (AttributeError, NameError, NotImplementedError)):
        return True
    from . import loader
    if fn.startswith(loader.REPO):
        # multi-line raise statements start above
        for k in range(1, 8):
            up = linecache.getline(fn, fr.tb_lineno - k).strip()
            if up.startswith("raise"):
                return False
        return isinstance(e, TypeError)
    return False


def req_unchanged(c, name, *arrays):
    """frame: caller-owned arrays have their initial contents"""
    for a in arrays:
        b = a.buf
        if b.writes == 0 and b.fn is b.init:
            c.prove("%s: %s untouched" % (name, b.name), True)
            continue
        idx = [c.index("fr", 0, d) for d in b.dims]
        c.prove("%s: %s unchanged" % (name, b.name), V.same(b.fn(tuple(idx)), b.init(tuple(idx))))


def skolem(c, a, base="i"):
    dims = a._shape if isinstance(a, SArr) else a
    return tuple(c.index(base, 0, V.as_dim(d)) for d in dims)


def same_shape(a, dims):
    """z3 Bool: array a has the given dims"""
    if not isinstance(a, SArr) or len(a._shape) != len(dims):
        return False
    return And_(*[zb(V._eq(x, V.as_dim(y))) for x, y in zip(a._shape, dims)])
