"""Ghost state of numpy's random generators.

A state is a term (what the generator was seeded with, or the unknown state found
on entry) and the history of draws since then; a draw is an arbitrary function of
the state, the arguments of the call and the element asked for.  numpy's contract
used here: seed() sets the state from the seed alone, get_state / set_state save
and restore it, a draw depends on the state and the arguments only and advances
the state, RandomState / default_rng have a state of their own."""
import z3
from . import core, values as V
from .core import Unsupported, zb, And_
from .values import SArr, SReal, SInt, lift, zi_, to_real, to_int, as_dim, In, Rl, is_symbolic

SEED = z3.Function("rng_seed", Rl, In)
KIND = {"uniform": "f", "rand": "f", "random": "f", "random_sample": "f", "ranf": "f", "sample": "f", "randn": "f", "normal": "f",
        "standard_normal": "f", "choice": "i", "permutation": "i", "randint": "i", "integers": "i", "dirichlet": "f",
        "exponential": "f", "poisson": "i"}


class State:
    def __init__(self, term, hist=(), ks=()):
        self.term, self.hist, self.ks = term, tuple(hist), tuple(ks)

    def same(self, o):
        """z3 Bool: both are the same state"""
        if self.hist != o.hist or len(self.ks) != len(o.ks):
            return False
        return And_(self.term == o.term, *[a == b for a, b in zip(self.ks, o.ks)])

    def after(self, what):
        return State(self.term, self.hist + (what,), self.ks)


class Gen:
    """one generator"""

    def __init__(self, state):
        self.state = state

    def call(self, name, a, k):
        if name == "get_state":
            return self.state
        if name == "set_state":
            if not isinstance(a[0], State):
                raise Unsupported("set_state of something else")
            self.state = a[0]
            return None
        if name == "seed":
            self.state = seeded(*a, **k)
            return None
        return self.draw(name, a, k)

    def draw(self, name, a, k):
        if name not in KIND:
            raise Unsupported("np.random.%s" % name)
        a, k = list(a), dict(k)
        src, size, lo, hi = None, k.pop("size", None), None, None
        extra = []
        if name in ("rand", "randn"):
            size, a = (tuple(a) if a else None), []
        elif name in ("random", "random_sample", "ranf", "sample", "standard_normal"):
            if a:
                size = a.pop(0)
            lo, hi = (None, None) if name == "standard_normal" else (0, 1)
        elif name == "permutation":
            x = a.pop(0)
            if isinstance(x, SArr):
                src, n = x, x._shape[0]
            else:
                n = as_dim(x)
            size, lo, hi = (V.wrap_int(n),), 0, n
        elif name == "choice":
            x = a.pop(0) if a else k.pop("a")
            if a:
                size = a.pop(0)
            if a:
                k["replace"] = a.pop(0)
            p = k.pop("p", None)
            if p is not None:
                raise Unsupported("choice with probabilities")
            extra.append(1 if k.pop("replace", True) else 0)
            if isinstance(x, (SArr, list)) or hasattr(x, "shape") and getattr(x, "shape"):
                src = V.arr(x)
                if src.ndim != 1:
                    raise Unsupported("choice from a matrix")
                n = src._shape[0]
            else:
                n = as_dim(x)
            lo, hi = 0, n
        else:
            if len(a) == 3:
                size = a.pop(2)
            elif len(a) == 2 and name in ("exponential", "poisson", "dirichlet"):
                size = a.pop(1)
            for q in ("low", "high", "loc", "scale", "lam"):
                if q in k:
                    a.append(k.pop(q))
            if name == "uniform":
                lo, hi = (list(a) + [0, 1][len(a):])[:2]
        if k or name == "dirichlet":
            raise Unsupported("np.random.%s with %s" % (name, sorted(k)))
        args = []
        for x in ([] if name in ("permutation", "choice") else a) + extra + ([V.wrap_int(hi)] if name in ("choice", "permutation") else []):
            if not (isinstance(x, V.Scalar) or V.is_num(x)):
                raise Unsupported("np.random.%s with array arguments" % name)
            args.append(to_real(lift(x)).v)
        if size is None:
            dims = []
        elif isinstance(size, (tuple, list)):
            dims = [as_dim(d) for d in size]
        else:
            dims = [as_dim(size)]
        st = self.state
        fname = "rnd_%s_%s" % (name, ".".join(st.hist) or "0")
        # the shape of a draw is part of the request
        pre = [st.term] + list(st.ks) + [zi_(d) for d in dims] + args
        kind = KIND[name]
        fn = z3.Function(fname, *([p.sort() for p in pre] + [In] * len(dims) + [In if kind == "i" else Rl]))
        core.CUR.stream_names.add(fname)

        def facts(app):
            out = []
            if lo is not None:
                lz, hz = [(zi_(v) if kind == "i" else to_real(lift(v)).v) if not isinstance(v, z3.ExprRef) else v for v in (lo, hi)]
                out += [app >= lz, app < hz]
            return out
        if not st.ks:
            core.CUR.decl_facts[fname] = facts
        self.state = st.after(str(len(st.hist)) + name[0])

        def get(idx):
            t = fn(*(pre + [zi_(i) for i in idx]))
            if kind == "i":
                r = SInt(t)
                if src is not None:
                    core.CUR.assume_range(t, hi) if hasattr(core.CUR, "assume_range") else None
                    return lift(src.get((V.zi(r),)))
                return r
            return SReal(t)
        if not dims:
            return get(())
        return SArr.new(dims, get, src.kind if src is not None else kind)

    def loop_enter(self, ks):
        st = self.state
        self.state = State(st.term, st.hist + ("loop",), st.ks + tuple(ks))
        return self.state


def seeded(s=None, *a, **k):
    if s is None:
        c = core.CUR
        return State(z3.Int("entropy!%d" % next(c.counter)))
    return State(SEED(to_real(lift(s)).v))


class SRandomState:
    """numpy.random.RandomState / Generator with its own state"""

    def __init__(self, seed=None, *a, **k):
        self._g = Gen(seed.state if isinstance(seed, Gen) else seeded(seed))
        core.CUR.rng_own.append(self._g)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **k: self._g.call(name, a, k)


class RNGContext:
    """astropy.utils.NumpyRNGContext: save, seed, restore on every way out"""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.startstate = core.CUR.rng.call("get_state", (), {})
        core.CUR.rng.call("seed", (self.seed,), {})

    def __exit__(self, *a):
        core.CUR.rng.call("set_state", (self.startstate,), {})


def start(c):
    """a generator in an unknown state; returns that state"""
    c.rng = Gen(State(z3.Int("found!%d" % next(c.counter))))
    c.rng_own = []
    c.stream_names = set()
    return c.rng.state
