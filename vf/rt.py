"""Run-time support of the transformed code: builtins on symbolic values and
the rule for loops over symbolic ranges."""
import builtins
import math as _math
import numpy as np
import z3
import astropy.units as u
from . import core
from .core import Unsupported, Infeasible, ctx, Or_, And_, Not_, zb, rv, b_false
from . import values as V
from .values import (SArr, SSel, SReal, SInt, SBool, SCplx, SQuantity, Scalar, Sym, lift, arr,
                     to_real, to_int, to_bool, zi, zi_, In, Rl, Bo, wrap_int)
from . import nps

_real_isinstance = builtins.isinstance


class SHeader(dict):
    """symbolic FITS header: only its identity and the WCS facts derived from it"""

    def __hash__(self):
        return id(self)

    def copy(self):
        h = SHeader(self)
        h.__dict__.update(self.__dict__)
        return h


def _symtype(x, T):
    """isinstance of a symbolic value against a real type, or None"""
    if isinstance(x, SQuantity):
        return T in (u.Quantity, np.ndarray, object)
    if isinstance(x, (SArr, SSel)):
        return T in (np.ndarray, object)
    if isinstance(x, SBool):
        return T in (bool, np.bool_, int, object)
    if isinstance(x, SInt):
        return T in (int, object, np.integer) or T in _ABC_INT
    if isinstance(x, SReal):
        return T in (float, object, np.floating, np.float64) or T in _ABC_REAL
    if isinstance(x, SCplx):
        return T in (complex, object)
    return None


import numbers
_ABC_INT = (numbers.Number, numbers.Integral, numbers.Real, numbers.Complex)
_ABC_REAL = (numbers.Number, numbers.Real, numbers.Complex)


def vc_isinstance(x, T):
    if _real_isinstance(T, tuple):
        return any(vc_isinstance(x, t) for t in T)
    T = nps.unfake(T)
    x_t = _symtype(x, T)
    if x_t is not None:
        return x_t
    isa = getattr(x, "__vc_isa__", None)
    if isa is not None:
        return T in isa or any(_real_isinstance(t, type) and _real_isinstance(T, type) and issubclass(t, T)
                               for t in isa)
    if _real_isinstance(x, SHeader):
        from astropy.io import fits
        return T in (fits.Header, object)
    if not _real_isinstance(T, type) and not hasattr(T, "__instancecheck__"):
        return _real_isinstance(x, T)
    return _real_isinstance(x, T)


class _FakeMeta(type):
    def __instancecheck__(cls, x):
        return vc_isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


class vc_int(int, metaclass=_FakeMeta):
    real = int

    def __new__(cls, x=0, *a):
        if isinstance(x, SArr) and x.ndim == 0:
            x = x.get(())
        if isinstance(x, SQuantity):
            if x.unit != u.dimensionless_unscaled:
                raise TypeError("only dimensionless scalar quantities can be converted to Python scalars")
            x = x.value
        if isinstance(x, Scalar):
            return V.trunc_int(x)
        return int(x, *a)


class vc_float(float, metaclass=_FakeMeta):
    real = float

    def __new__(cls, x=0.0):
        if isinstance(x, SArr) and x.ndim == 0:
            x = x.get(())
        if isinstance(x, SQuantity):
            if x.unit != u.dimensionless_unscaled:
                raise TypeError("only dimensionless scalar quantities can be converted to Python scalars")
            x = x.value
        if isinstance(x, Scalar):
            return to_real(x)
        return float(x)


class vc_bool(metaclass=_FakeMeta):
    real = bool

    def __new__(cls, x=False):
        return bool(x)


class vc_complex(complex, metaclass=_FakeMeta):
    real = complex

    def __new__(cls, *a):
        return complex(*a)


nps.FAKE.update({vc_int: int, vc_float: float, vc_bool: bool, vc_complex: complex})


def vc_len(x):
    if isinstance(x, SQuantity) and not x.isscalar:
        x = x.value
    if isinstance(x, SArr):
        if not x._shape:
            raise TypeError("len() of unsized object")
        return wrap_int(x._shape[0])
    if isinstance(x, SSel):
        return x.size
    if isinstance(x, SList):
        return wrap_int(x.n)
    return len(x)


class SIter:
    """symbolic-length iterable: n elements, at(k) the k-th"""
    _siter = True

    def __init__(self, n, at, dims=None, at_nd=None):
        self.n, self.at = n, at
        self.dims = dims or [n]          # a product of ranges: one index per range
        self.at_nd = at_nd or at

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(i) for i in range(self.n)])
        raise Unsupported("iteration over a symbolic range outside a for statement")

    def __len__(self):
        raise Unsupported("len of a symbolic range")


class SList(SIter):
    """result of appending in a symbolic loop"""

    def append(self, x):
        raise Unsupported("append to a symbolic list")


def _symbolic(it):
    if not isinstance(it, (Sym, SIter)):
        return None
    s = sym_iter(it)
    return s if s is not None and not isinstance(s.n, int) else None


def gen_map(it, f):
    s = _symbolic(it)
    if s is None:
        return (f(x) for x in it)
    return SIter(s.n, lambda k: f(s.at(k)), s.dims, lambda *ks: f(s.at_nd(*ks)))


def comp_map(it, f):
    s = _symbolic(it)
    if s is None:
        return [f(x) for x in it]
    return SList(s.n, lambda k: f(s.at(k)), s.dims, lambda *ks: f(s.at_nd(*ks)))


def vc_range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    for x in (lo, hi, st):
        if isinstance(x, (SReal, float, SArr, SQuantity)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if not isinstance(st, int) or st == 0:
        raise Unsupported("range with a symbolic step")
    lo, hi = zi(lo), zi(hi)
    n = V._add(hi, V._mul(lo, -1))
    if st > 0:
        n = (n + st - 1) // st if isinstance(n, int) else zi((n + st - 1) / st) if st != 1 else n
    else:
        n = V._mul(n, -1)
        n = (n - st - 1) // (-st) if isinstance(n, int) else zi((n + (-st) - 1) / (-st)) if st != -1 else n
    if isinstance(n, int):
        n = max(n, 0)
    elif ctx().decide(n >= 0) is not True:
        n = n if ctx().branch(n >= 0) else 0
    return SIter(n, lambda k: wrap_int(V._add(lo, V._mul(k, st))))


def sym_iter(x):
    """SIter for a symbolic iterable, or None"""
    if isinstance(x, SIter):
        return x
    if isinstance(x, SQuantity) and isinstance(x.value, SArr) and x.value.ndim:
        v = x.value
        return SIter(v._shape[0], lambda k: SQuantity(v[wrap_int(k)], x.unit))
    if isinstance(x, SArr) and x.ndim:
        # the k-th element of an iteration exists: no index check
        return SIter(x._shape[0], (lambda k: x.get((V.zi(k),))) if x.ndim == 1 else lambda k: x[wrap_int(k)])
    if isinstance(x, SSel):
        raise Unsupported("loop over a selection")
    if isinstance(x, V.Sym):
        raise TypeError("object is not iterable")
    return None


class _Enum(SIter):
    pass


def vc_enumerate(x, start=0):
    it = sym_iter(x)
    if it is None:
        return enumerate(x, start)
    if len(it.dims) > 1:
        def flat(ks):
            f = ks[0]
            for k, d in zip(ks[1:], it.dims[1:]):
                f = V._add(V._mul(f, d), k)
            return f
        return SIter(it.n, lambda k: (wrap_int(V._add(k, start)), it.at(k)), it.dims,
                     lambda *ks: (wrap_int(V._add(flat(ks), start)), it.at_nd(*ks)))
    return SIter(it.n, lambda k: (wrap_int(V._add(k, start)), it.at(k)))


def vc_product(*xs, **kw):
    import itertools
    its = [sym_iter(x) for x in xs]
    if kw or all(i is None for i in its):
        return itertools.product(*xs, **kw)
    its = [i if i is not None else SIter(len(x), lambda k, x=x: x[k] if isinstance(k, int) else
                                         V.pick([lift(v) for v in x], k))
           for i, x in zip(its, map(lambda x: x if isinstance(x, SIter) else list(x) if sym_iter(x) is None else x, xs))]
    dims = [i.n for i in its]
    n = V.prod_dims(dims)

    def at(k):
        out = []
        for i in reversed(its):
            if isinstance(k, int) and isinstance(i.n, int):
                k, r = divmod(k, i.n)
            else:
                k, r = zi_(k) / zi_(i.n), zi_(k) % zi_(i.n)
            out.append(i.at(r))
        return tuple(reversed(out))
    return SIter(n, at, dims, lambda *ks: tuple(i.at(k) for i, k in zip(its, ks)))


def vc_zip(*xs):
    its = [sym_iter(x) for x in xs]
    if all(i is None for i in its):
        return zip(*xs)
    n = None
    fin = []
    for x, i in zip(xs, its):
        if i is None:
            l = list(x)
            i = SIter(len(l), lambda k, l=l: l[k] if isinstance(k, int) else V.pick([lift(v) for v in l], k)
                      if all(isinstance(v, Scalar) or V.is_num(v) for v in l) else _uns("zip with objects"))
        fin.append(i)
        if n is None:
            n = i.n
        elif not V.dim_eq(n, i.n):
            n = n if ctx().branch(zi_(n) < zi_(i.n)) else i.n
    return SIter(n, lambda k: tuple(i.at(k) for i in fin))


def _uns(m):
    raise Unsupported(m)


def vc_reversed(x):
    it = sym_iter(x)
    if it is None:
        return reversed(x)
    return SIter(it.n, lambda k: it.at(V._add(V._add(it.n, -1), V._mul(k, -1))))


def vc_abs(x):
    return V.unop("abs", x) if isinstance(x, Sym) else abs(x)


def _fold(x, f):
    r = x[0]
    for y in x[1:]:
        r = f(r, y)
    return r


def vc_minmax(which):
    real = getattr(builtins, which)
    sf = V.s_min if which == "min" else V.s_max

    def two(a, b):
        if V.has_unit(a) or V.has_unit(b):
            c = (b < a) if which == "min" else (b > a)
            return b if bool(c) else a
        if isinstance(a, Sym) or isinstance(b, Sym):
            # python keeps the first unless the second compares strictly
            la, lb = lift(a), lift(b)
            c = V.s_bin("lt" if which == "min" else "gt", lb, la)
            return V.s_merge(c.c, lb, la)
        return real(a, b)

    def f(*xs, **k):
        if k and not nps.any_sym(xs):
            return real(*xs, **k)
        if len(xs) == 1:
            it = sym_iter(xs[0])
            if it is not None:
                if isinstance(xs[0], SArr):
                    return getattr(nps.np_shim, which)(xs[0])
                if isinstance(xs[0], SQuantity):
                    return V.mkq(getattr(nps.np_shim, which)(xs[0].value), xs[0].unit)
                xs = (list(it),)
            xs = list(xs[0])
            if not nps.any_sym(xs):
                return real(xs, **k)
        if k:
            raise Unsupported("%s with key" % which)
        return _fold(list(xs), two)
    return f


def vc_sum(x, start=0):
    if isinstance(x, SSel):
        r = nps.r_sum(x)
        return r if start == 0 else start + r
    if isinstance(x, SArr):
        r = nps.r_sum(x, axis=0)
        return r if start == 0 else start + r
    it = sym_iter(x) if isinstance(x, (SIter, SQuantity)) else None
    if it is not None:
        x = list(it)
    r = start
    for v in x:
        r = r + v
    return r


def vc_any(x):
    if isinstance(x, SArr):
        return bool(nps.r_any(x))
    for v in x:
        if v:
            return True
    return False


def vc_all(x):
    if isinstance(x, SArr):
        return bool(nps.r_all(x))
    for v in x:
        if not v:
            return False
    return True


def vc_round(x, n=None):
    if isinstance(x, Scalar):
        return V.s_round(x, n)
    return round(x) if n is None else round(x, n)


def vc_hasattr(o, n):
    try:
        getattr(o, n)
        return True
    except AttributeError:
        return False


def vc_sorted(x, **k):
    if nps.any_sym(x):
        raise Unsupported("sorted on symbolic values")
    return sorted(x, **k)


def vc_list(*a):
    if a and isinstance(a[0], (SArr, SQuantity, SIter)) and sym_iter(a[0]) is not None and \
            not isinstance(sym_iter(a[0]).n, int):
        it = sym_iter(a[0])
        return SList(it.n, it.at)
    return list(*a)


def vc_print(*a, **k):
    return None


def vc_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SQuantity):
            return u.Quantity
        if isinstance(x, (SArr, SSel)):
            return np.ndarray
        if isinstance(x, SInt):
            return int
        if isinstance(x, SReal):
            return float
        if isinstance(x, SBool):
            return bool
    return type(*a)


def vc_map(f, *xs):
    if any(sym_iter(x) is not None for x in xs if isinstance(x, (Sym, SIter))):
        its = vc_zip(*xs)
        return SIter(its.n, lambda k: f(*its.at(k)))
    return map(f, *xs)


OVERRIDES = dict(isinstance=vc_isinstance, int=vc_int, float=vc_float, len=vc_len, range=vc_range,
                 xrange=vc_range, enumerate=vc_enumerate, zip=vc_zip, reversed=vc_reversed, abs=vc_abs,
                 min=vc_minmax("min"), max=vc_minmax("max"), sum=vc_sum, any=vc_any, all=vc_all,
                 round=vc_round, sorted=vc_sorted, print=vc_print, type=vc_type, map=vc_map,
                 bool=vc_bool, complex=vc_complex)


class MathShim:
    def __getattr__(self, name):
        real = getattr(_math, name)
        if not callable(real):
            return real
        tab = {"sqrt": "sqrt", "log": "log", "log10": "log10", "exp": "exp", "cos": "cos", "sin": "sin",
               "floor": "floor", "ceil": "ceil", "isnan": "isnan", "isinf": "isinf", "fabs": "abs"}

        def f(*a):
            if not nps.any_sym(a):
                return real(*a)
            if name in ("floor", "ceil"):
                return V.trunc_int(V.s_un(name, a[0]))
            if name == "sqrt":
                x = to_real(a[0])
                if ctx().branch(Or_(Not_(x.nan), False) if False else (x.v < 0)):
                    raise ValueError("math domain error")
            if name in tab:
                return V.s_un(tab[name], a[0])
            raise Unsupported("math." + name)
        return f


math_shim = MathShim()


# ---------------------------------------------------------------------------
# loops

class Poison:
    """value of a variable left over from an earlier iteration: may not be read"""

    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__array__",):
            raise AttributeError(n)
        raise Unsupported("loop-carried dependence")

    def _r(self, *a, **k):
        raise Unsupported("loop-carried dependence")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _r
    __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = _r
    __call__ = __float__ = __int__ = __index__ = __and__ = __or__ = __neg__ = __pow__ = _r
    __eq__ = __ne__ = _r
    __hash__ = object.__hash__


def subst_term(t, pairs):
    return z3.substitute(t, *pairs) if isinstance(t, z3.ExprRef) else t


def subst_flag(t, pairs):
    if isinstance(t, bool):
        return t
    r = z3.simplify(z3.substitute(t, *pairs))
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def subst_scalar(v, pairs):
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.c, *pairs))
    if isinstance(v, SInt):
        return SInt(z3.simplify(z3.substitute(v.e, *pairs)))
    if isinstance(v, SReal):
        return SReal(z3.substitute(v.v, *pairs), subst_flag(v.nan, pairs), subst_flag(v.inf, pairs))
    if isinstance(v, SCplx):
        return SCplx(subst_scalar(v.re, pairs), subst_scalar(v.im, pairs),
                     subst_term(v.absv, pairs) if v.absv is not None else None)
    return v


def subst_dim(d, pairs):
    return d if isinstance(d, int) else zi(z3.substitute(d, *pairs))


def subst_any(v, pairs):
    if isinstance(v, Scalar):
        return subst_scalar(v, pairs)
    if isinstance(v, SQuantity):
        return SQuantity(subst_any(v.value, pairs), v.unit)
    if isinstance(v, SArr):
        f = v.snap()
        # the element index may not be captured: it is substituted afterwards
        return SArr.new([subst_dim(d, pairs) for d in v._shape],
                        lambda idx: _subst_at(f, idx, pairs), v.kind)
    if isinstance(v, (int, float, str, type(None), bool, np.number)):
        return v
    if isinstance(v, (tuple, list)):
        return type(v)(subst_any(x, pairs) for x in v)
    if isinstance(v, u.Quantity) or callable(v) or isinstance(v, u.UnitBase):
        return v
    return Poison()


def _subst_at(f, idx, pairs):
    fresh = [z3.Int("sb!%d" % i) for i in range(len(idx))]
    r = f(tuple(fresh))
    r = subst_scalar(r, pairs)
    return subst_scalar(r, [(a, zi_(b)) for a, b in zip(fresh, idx)])


def contains_any(v, names):
    for t in V.parts(v):
        if core.contains_decl(t, names):
            return True
    return False


def is_same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Scalar) and isinstance(b, Scalar) and type(a) is type(b):
        return all(x.eq(y) for x, y in zip(V.parts(a), V.parts(b)))
    if isinstance(a, SArr) and isinstance(b, SArr):
        return a.buf is b.buf and a.maps == b.maps
    if isinstance(a, SQuantity) and isinstance(b, SQuantity):
        return a.unit == b.unit and is_same_value(a.value, b.value)
    try:
        if isinstance(a, (int, float, str, np.number)) and type(a) is type(b):
            return bool(a == b)
    except Exception:
        return False
    return False


def symloop(it, body, getters, setv, names, flags):
    """for <target> in it: body, with a symbolic number of iterations"""
    c = ctx()
    if flags:
        raise Unsupported("symbolic loop with " + flags)
    n = it.n
    if isinstance(n, int):
        for i in range(n):
            body(it.at(i))
        return
    dims = list(it.dims)
    for d in dims:
        if isinstance(d, int):
            if d == 0:
                return
        elif not c.branch(d > 0):
            return

    def read():
        out = {}
        for nm in names:
            try:
                out[nm] = getters[nm]()
            except NameError:
                pass
        return out

    def restore_to(st):
        for nm, v in st.items():
            setv(nm, v)
    init = read()
    lists0 = {nm: list(v) for nm, v in init.items() if isinstance(v, list)}
    dicts0 = [(v, dict(v)) for v in init.values() if isinstance(v, dict)]
    bufs = list(c.bufs)
    fns0 = [b.fn for b in bufs]
    nlog = len(c.log)
    gen = getattr(c, "rng", None)
    gens = [gen] + list(c.rng_own) if gen is not None else []
    gst0 = [g.state for g in gens]

    def reset():
        for g, s in zip(gens, gst0):
            g.state = s
        for b, f in zip(bufs, fns0):
            b.fn = f
        for nm, l in lists0.items():
            init[nm][:] = l
        restore_to(init)
        del c.log[nlog:]

    # pass 1: which variables and buffers does an iteration touch?
    changed_v, changed_b, appended, items = set(), set(), set(), set()

    def run1():
        ks = [c.index("k", 0, d) for d in dims]
        c.loop_ks.extend(ks)
        try:
            body(it.at_nd(*ks))
        finally:
            del c.loop_ks[-len(ks):]
            st = read()
            for nm, v in st.items():
                if nm not in init or v is not init[nm]:
                    changed_v.add(nm)
            for nm, l in lists0.items():
                if len(init[nm]) != len(l):
                    appended.add(nm)
                else:
                    for i, (a, b) in enumerate(zip(init[nm], l)):
                        if a is not b:
                            items.add((nm, i))
            for b, f in zip(bufs, fns0):
                if b.fn is not f:
                    changed_b.add(id(b))
            for v, d in dicts0:
                if len(v) != len(d) or any(k not in d or v[k] is not d[k] for k in v):
                    v.clear()
                    v.update(d)
                    raise Unsupported("dictionary filled in a symbolic loop")
    ncand = len(c.cand_idx)
    c.sub_explore(run1, reset)
    del c.cand_idx[ncand:]
    # pass 2: an arbitrary iteration from an arbitrary state
    ks = [z3.Int("k!%d" % next(c.counter)) for _ in dims]
    for k in ks:
        c.index_vars[k.get_id()] = k
    havoc = {}
    hnames = set()
    for nm in changed_v:
        if nm not in init:
            continue
        v = init[nm]
        if isinstance(v, SArr) and id(v.buf) in changed_b:
            continue          # rebinding of the same buffer (a += b)
        if isinstance(v, SQuantity) and isinstance(v.value, SArr) and id(v.value.buf) in changed_b:
            continue
        if isinstance(v, (SReal, float)) and not isinstance(v, bool):
            t = "hv_%s!%d" % (nm, next(c.counter))
            havoc[nm] = SReal(z3.Real(t), z3.Bool(t + "n"))
            hnames |= {t, t + "n"}
        elif isinstance(v, bool) or isinstance(v, SBool):
            t = "hv_%s!%d" % (nm, next(c.counter))
            havoc[nm] = SBool(z3.Bool(t))
            hnames.add(t)
        elif isinstance(v, (SInt, int)):
            t = "hv_%s!%d" % (nm, next(c.counter))
            havoc[nm] = SReal(z3.Real(t), z3.Bool(t + "n")) if False else SInt(z3.Int(t))
            hnames |= {t, t + "n"}
        else:
            havoc[nm] = Poison()
    hbuf = {}
    for b, f in zip(bufs, fns0):
        if id(b) in changed_b:
            t = "hb!%d" % next(c.counter)
            nd = len(b.dims)
            dom = [In] * nd
            def mkf(sfx, sort, t=t, dom=dom):
                return z3.Function(t + sfx, *(dom + [sort])) if dom else None
            if nd == 0:
                raise Unsupported("0-d buffer in a loop")
            fv = mkf("", {"f": Rl, "i": In, "b": Bo, "c": Rl}[b.kind])
            fn_ = mkf("n", Bo)
            fim = mkf("m", Rl)
            finf = mkf("i", Bo)
            if b.kind == "f":
                h = lambda idx, fv=fv, fn_=fn_, finf=finf: SReal(fv(*map(zi_, idx)), fn_(*map(zi_, idx)), finf(*map(zi_, idx)))
            elif b.kind == "c":
                h = lambda idx, fv=fv, fim=fim: SCplx(SReal(fv(*map(zi_, idx))), SReal(fim(*map(zi_, idx))))
            else:
                h = lambda idx, fv=fv: lift(fv(*map(zi_, idx)))
            hbuf[id(b)] = (h, {t, t + "n", t + "m", t + "i"})
            hnames |= {t, t + "n", t + "m", t + "i"}

    def thunk():
        for k, d in zip(ks, dims):
            c.assume(k >= 0)
            c.assume(k < d)
        for nm, v in havoc.items():
            setv(nm, v)
        for nm, i in items:
            init[nm][i] = Poison()
        for b in bufs:
            if id(b) in hbuf:
                b.set_fn(hbuf[id(b)][0])
        c.loop_ks.extend(ks)
        pc0 = len(c.pc)
        gin = [g.loop_enter(ks) for g in gens]
        try:
            body(it.at_nd(*ks))
        finally:
            del c.loop_ks[-len(ks):]
        st = read()
        return (dict((nm, st[nm]) for nm in changed_v if nm in st),
                {id(b): b.fn for b in bufs if id(b) in hbuf},
                {nm: init[nm][len(lists0[nm]):] for nm in appended}, list(c.log[nlog:]),
                [g.state is s for g, s in zip(gens, gin)])
    base = len(c.pc)
    results = c.sub_explore(thunk, reset)
    # exceptions: some iteration raises
    excs = [(cond, e) for cond, r, e in results if e is not None]
    oks = [(cond, r) for cond, r, e in results if e is None]
    for cond, e in excs:
        if core.contains_decl(zb(cond), hnames):
            raise Unsupported("exception depending on an earlier iteration")
        bvs = [c.bvar() for _ in ks]
        t = c.functional("any", dims, None, sort=Bo, bound=bvs,
                         body=[z3.substitute(zb(cond), *zip(ks, bvs))])
        if c.branch(t):
            w = [c.index("kx", 0, d) for d in dims]
            c.assume(z3.substitute(zb(cond), *zip(ks, w)))
            for g, s in zip(gens, gst0):
                g.state = s.after("raised")
            raise e
    if not oks:
        raise Infeasible()
    strip = []
    for cond, r in oks:
        if core.contains_decl(zb(cond), hnames):
            raise Unsupported("branch depending on an earlier iteration")
    conds = [cond for cond, _ in oks]

    def merged(vals):
        """merge scalar results of the body paths"""
        r = vals[-1]
        for cond, v in list(zip(conds, vals))[-2::-1]:
            r = V.s_merge(z3.simplify(zb(cond)), v, r)
        return r
    last = [(k, zi_(d) - 1) for k, d in zip(ks, dims)]
    final_v = {}
    for nm in changed_v:
        vals = [r[0].get(nm) for _, r in oks]
        if any(isinstance(w, SArr) and id(w.buf) in hbuf
               for w in [v.value if isinstance(v, SQuantity) else v for v in vals]):
            if nm in init and all(is_same_value(v, init[nm]) for v in vals):
                continue
        if nm in havoc and isinstance(havoc[nm], Scalar) and all(
                isinstance(v, Scalar) or V.is_num(v) for v in vals):
            m = merged([lift(v) for v in vals])
            h = havoc[nm]
            if contains_any(m, hnames):
                final_v[nm] = accumulate(c, init[nm], h, m, ks, dims, hnames, conds)
                continue
            final_v[nm] = subst_scalar(m, last)
            continue
        if any(v is None and nm not in r[0] for v, (_, r) in zip(vals, oks)):
            final_v[nm] = Poison()
            continue
        if all(isinstance(v, Scalar) or V.is_num(v) for v in vals):
            m = merged([lift(v) for v in vals])
            final_v[nm] = Poison() if contains_any(m, hnames) else subst_scalar(m, last)
        elif len(vals) == 1:
            final_v[nm] = subst_any(vals[0], last) if not _poisoned(vals[0], hnames) else Poison()
        else:
            final_v[nm] = Poison()
    # buffers
    final_b = []
    for b, f0 in zip(bufs, fns0):
        if id(b) not in hbuf:
            continue
        h, hn = hbuf[id(b)]
        fs = [r[1][id(b)] for _, r in oks]
        if getattr(c, "lost", False):
            try:
                z = tuple(c.bvar() for _ in b.dims)
                gone = any(core.contains_prefix(t, "lost!") for f in fs for t in V.terms_of(f(z)))
            except Unsupported:
                gone = True
            if gone:
                final_b.append((b, V.lost_contents(b)))
                continue
        final_b.append((b, buffer_rule(c, b, f0, h, hn, fs, conds, ks, dims, hnames, merged)))
    # list appends
    lists_f = {}
    for nm in appended:
        if lists0[nm]:
            raise Unsupported("append to a non-empty list in a symbolic loop")
        app = [r[2][nm] for _, r in oks]
        if any(len(a) != 1 for a in app):
            raise Unsupported("conditional append in a symbolic loop")
        app = [a[0] for a in app]
        if len(app) > 1:
            app = [merged([lift(a) for a in app])]
        if _poisoned(app[0], hnames):
            raise Unsupported("append of a loop-carried value")
        if len(ks) > 1:
            raise Unsupported("append in a product loop")
        lists_f[nm] = SList(n, lambda j, a=app[0]: subst_any(a, [(ks[0], zi_(j))]))
    # commit
    for i, g in enumerate(gens):
        g.state = gst0[i] if all(r[4][i] for _, r in oks) else gst0[i].after("after%d" % len(gst0[i].hist))
    for nm, v in init.items():
        setv(nm, v)
    for nm, v in final_v.items():
        setv(nm, v)
    for nm, i in items:
        init[nm][i] = Poison()
    for nm, v in lists_f.items():
        setv(nm, v)
    for b, fn in final_b:
        b.set_fn(fn)
        b.writes += 1
    for _, r in oks:
        for entry in r[3]:
            c.log.append(("loop", ks[0] if len(ks) == 1 else tuple(ks), n, entry))


def _poisoned(v, hnames):
    if isinstance(v, Poison):
        return True
    if isinstance(v, Scalar):
        return contains_any(v, hnames)
    if isinstance(v, SQuantity):
        return _poisoned(v.value, hnames)
    if isinstance(v, SArr):
        idx = tuple(z3.Int("pz!%d" % i) for i in range(v.ndim))
        return contains_any(v.get(idx), hnames)
    if isinstance(v, (list, tuple)):
        return any(_poisoned(x, hnames) for x in v)
    return False


def accumulate(c, v0, h, m, ks, dims, hnames, conds):
    """final value of v when one iteration maps h to m"""
    if isinstance(h, SBool):
        # v or g(k)
        for val, op in ((False, "or"), (True, "and")):
            g = z3.simplify(z3.substitute(m.c, (h.c, zb(val))))
            o = z3.simplify(z3.substitute(m.c, (h.c, zb(not val))))
            if (z3.is_true(o) and op == "or") or (z3.is_false(o) and op == "and"):
                if core.contains_decl(g, hnames):
                    break
                bvs = [c.bvar() for _ in ks]
                body = z3.substitute(g, *zip(ks, bvs))
                if op == "or":
                    t = c.functional("any", dims, None, sort=Bo, bound=bvs, body=[body])
                    return SBool(Or_(to_bool(v0).c, t))
                t = c.functional("any", dims, None, sort=Bo, bound=bvs, body=[z3.Not(body)])
                return SBool(And_(to_bool(v0).c, Not_(t)))
        raise Unsupported("loop-carried boolean")
    if isinstance(h, SInt) and isinstance(m, SInt):
        g = z3.simplify(m.e - h.e)
        if core.contains_decl(g, hnames):
            g = _push_sub(m.e, h.e)
        if g is None or core.contains_decl(g, hnames):
            raise Unsupported("loop-carried integer")
        bvs = [c.bvar() for _ in ks]
        t = c.functional("isum", dims, None, sort=In, bound=bvs, body=[z3.substitute(g, *zip(ks, bvs))])
        return SInt(to_int(v0).e + t)
    m = to_real(m)
    if isinstance(h, SInt):
        h = to_real(h)
    g = z3.simplify(m.v - h.v)
    if core.contains_decl(g, hnames):
        g = _push_sub(m.v, h.v)
    if g is None or core.contains_decl(g, hnames):
        raise Unsupported("loop-carried value")
    # nan: h.nan or g_nan
    bvs = [c.bvar() for _ in ks]
    nanflag = False
    if not b_false(m.nan):
        hn = h.nan if not isinstance(h.nan, bool) else None
        gn = z3.simplify(z3.substitute(zb(m.nan), (hn, z3.BoolVal(False)))) if hn is not None else zb(m.nan)
        if core.contains_decl(gn, hnames):
            raise Unsupported("loop-carried nan")
        if not z3.is_false(gn):
            nanflag = c.functional("any", dims, None, sort=Bo, bound=bvs, body=[z3.substitute(gn, *zip(ks, bvs))])
    if not b_false(m.inf):
        raise Unsupported("possible infinity accumulated in a loop")
    t = c.functional("sum", dims, None, bound=bvs, body=[z3.substitute(g, *zip(ks, bvs))])
    a0 = to_real(v0)
    return SReal(a0.v + t, Or_(a0.nan, nanflag), a0.inf)


def _push_sub(e, h):
    """e - h with the subtraction pushed into if-then-else branches"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c_, a, b = e.children()
        x, y = _push_sub(a, h), _push_sub(b, h)
        if x is None or y is None:
            return None
        return z3.If(c_, x, y)
    return z3.simplify(e - h)


def _split_inf(c, e, h, gi, hnames, rngs):
    """(finite part, sign) of what an iteration adds to a finite h: the value is
    h + finite part, or, where gi holds, the infinity given by sign"""
    def go(e, path):
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            k, a, b = e.children()
            x, y = go(a, path + [k]), go(b, path + [z3.Not(k)])
            if x is None or y is None:
                return None
            return z3.If(k, x[0], y[0]), z3.If(k, x[1], y[1])
        d = z3.simplify(e - h)
        if not core.contains_decl(d, hnames):
            return d, d
        if core.contains_decl(e, hnames):
            return None
        if c._solve(list(c.pc) + rngs + path, gi, 2000)[0] != "proved":
            return None
        return rv(0), e
    r = go(e, [])
    if r is None:
        return None, None
    return z3.simplify(z3.If(gi, rv(0), r[0])), z3.simplify(r[1])


def buffer_rule(c, b, f0, h, hn, fs, conds, ks, dims, hnames, merged):
    """element function of buffer b after all iterations"""
    nd = len(b.dims)
    sk = tuple(z3.Int("cell!%d!%d" % (next(c.counter), i)) for i in range(nd))
    for s in sk:
        c.index_vars[s.get_id()] = s
    m = merged([f(sk) for f in fs])
    hv = h(sk)
    rngs = [z3.And(s >= 0, s < zi_(d)) for s, d in zip(sk, b.dims)]
    # (1) cells written by exactly one iteration: solve for k
    sol = solve_k(c, m, hv, sk, ks, dims, rngs)
    if sol is not None:
        kk, wcond = sol         # k as a function of sk; condition (over sk, with k replaced)

        def fn(idx):
            pairs = [(s, zi_(i)) for s, i in zip(sk, idx)]
            val = subst_scalar(m, list(zip(ks, kk)))
            val = subst_scalar(val, pairs)
            old = f0(tuple(idx))
            val = replace_cell(val, h, idx, old, hnames)
            w = z3.simplify(z3.substitute(zb(wcond), *pairs))
            if z3.is_false(w):
                return old
            return V.cast_scalar(V.s_merge(True if z3.is_true(w) else w, val, old), b.kind)
        # the value may read only this very cell of the old contents
        test = replace_cell(m, h, sk, None, hnames)
        return fn
    # (2) accumulation into every cell
    if b.kind == "b":
        for val in (False, True):
            mm = to_bool(m).c
            g = z3.simplify(z3.substitute(zb(mm), (to_bool(hv).c, z3.BoolVal(val))))
            o = z3.simplify(z3.substitute(zb(mm), (to_bool(hv).c, z3.BoolVal(not val))))
            if (z3.is_false(o) if val else z3.is_true(o)) and not core.contains_decl(g, hnames):
                def fn(idx, g=g, val=val):
                    pairs = [(s, zi_(i)) for s, i in zip(sk, idx)]
                    bvs = [c.bvar() for _ in ks]
                    body = z3.substitute(g, *(pairs + list(zip(ks, bvs))))
                    t = c.functional("any", dims, None, sort=Bo, bound=bvs, body=[z3.Not(body) if val else body])
                    old = to_bool(f0(tuple(idx))).c
                    return SBool(And_(old, Not_(t)) if val else Or_(old, t))
                return fn
        raise Unsupported("loop-carried mask")
    if b.kind in "fi":
        hm = lift(hv)
        g = None
        if b.kind == "f":
            g = z3.simplify(m.v - hm.v)
            if core.contains_decl(g, hnames):
                g = _push_sub(m.v, hm.v)
            gn = z3.simplify(z3.substitute(zb(m.nan), (zb(hm.nan), z3.BoolVal(False)))) if not isinstance(hm.nan, bool) else zb(m.nan)
            gn = z3.simplify(z3.substitute(gn, (zb(hm.inf), z3.BoolVal(False))))
            gi = z3.simplify(z3.substitute(zb(m.inf), (zb(hm.inf), z3.BoolVal(False)), (zb(hm.nan), z3.BoolVal(False))))
            # with a finite accumulator the value is h + g: re-evaluate
            vv = z3.simplify(z3.substitute(m.v, (zb(hm.inf), z3.BoolVal(False))))
            g = z3.simplify(vv - hm.v)
            if core.contains_decl(g, hnames):
                g = _push_sub(vv, hm.v)
            sgn = None
            if not z3.is_false(gi) and not core.contains_decl(gi, hnames):
                g, sgn = _split_inf(c, vv, hm.v, gi, hnames, rngs)
            if g is None or core.contains_decl(g, hnames) or core.contains_decl(gn, hnames) or core.contains_decl(gi, hnames):
                raise Unsupported("loop-carried array contents")

            def fn(idx):
                pairs = [(s, zi_(i)) for s, i in zip(sk, idx)]
                bvs = [c.bvar() for _ in ks]
                body = z3.substitute(g, *(pairs + list(zip(ks, bvs))))
                t = c.functional("sum", dims, None, bound=bvs, body=[body])
                o = to_real(f0(tuple(idx)))
                nan = o.nan
                if not z3.is_false(gn):
                    bn = z3.substitute(gn, *(pairs + list(zip(ks, bvs))))
                    nan = Or_(nan, c.functional("any", dims, None, sort=Bo, bound=bvs, body=[bn]))
                if not b_false(o.inf):
                    raise Unsupported("infinite initial accumulator")
                if sgn is not None:
                    hit = []
                    for s in (sgn > 0, sgn < 0):
                        e = z3.simplify(z3.And(gi, z3.Not(gn), s))
                        hit.append(c.functional("any", dims, None, sort=Bo, bound=bvs,
                                                body=[z3.substitute(e, *(pairs + list(zip(ks, bvs))))]))
                    hp, hm_ = hit
                    return SReal(z3.If(hp, rv(1), z3.If(hm_, rv(-1), o.v + t)),
                                 Or_(nan, And_(hp, hm_)), Or_(hp, hm_))
                return SReal(o.v + t, nan, o.inf)
            return fn
        g = z3.simplify(m.e - hm.e)
        if core.contains_decl(g, hnames):
            g = _push_sub(m.e, hm.e)
        if core.contains_decl(g, hnames):
            raise Unsupported("loop-carried array contents")

        def fn(idx):
            pairs = [(s, zi_(i)) for s, i in zip(sk, idx)]
            bvs = [c.bvar() for _ in ks]
            t = c.functional("isum", dims, None, sort=In, bound=bvs,
                             body=[z3.substitute(g, *(pairs + list(zip(ks, bvs))))])
            return SInt(to_int(f0(tuple(idx))).e + t)
        return fn
    raise Unsupported("loop writes an array in an unsupported way")


def replace_cell(val, h, idx, old, hnames):
    """replace the havoced contents at idx by old; anything else havoced is a
    loop-carried dependence"""
    hv = h(tuple(idx))
    if old is not None:
        ps = []
        for a, o in zip(V.parts(hv), V.parts(V.cast_scalar(old, V.kind_of(hv)))):
            ps.append((a, o))
        val = subst_scalar(val, ps)
        if contains_any(val, hnames):
            raise Unsupported("iteration reads cells written by another iteration")
        return val
    ps = [(a, V._zero(a)) for a in V.parts(hv)]
    if contains_any(subst_scalar(val, ps), hnames):
        raise Unsupported("iteration reads cells written by another iteration")
    return val


def solve_k(c, m, hv, sk, ks, dims, rngs):
    """If m = If(C(ks, sk), val, hv) with C forcing ks = affine(sk): (ks(sk), in range)."""
    import itertools
    # candidate equalities cell == affine(k) anywhere in the value
    cands = []
    seen = set()
    for p in V.parts(m):
        for e in core.walk(p, seen):
            if (z3.is_eq(e) and e.arg(0).sort() == In) or z3.is_le(e) or z3.is_ge(e):
                if any(core.contains(e, k) for k in ks) and any(core.contains(e, s) for s in sk):
                    cands.append(e)
    sols = []
    for k in ks:
        tried = []
        for e in cands:
            if not core.contains(e, k):
                continue
            # solve  lhs - rhs = a*k + rest for a = +-1
            d = z3.simplify(e.arg(0) - e.arg(1))
            at0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))))
            a = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))) - at0)
            if not z3.is_int_value(a) or a.as_long() not in (1, -1):
                continue
            if not z3.simplify(d - at0 - a * k).eq(z3.IntVal(0)):
                continue
            kk = z3.simplify(-at0 if a.as_long() == 1 else at0)
            if any(core.contains(kk, o) for o in ks) or any(kk.eq(t) for t in tried):
                continue
            tried.append(kk)
        sols.append(tried[:6])
    same_ = z3.And(*[x == y for x, y in zip(V.parts(m), V.parts(hv))])
    rk = [z3.And(k >= 0, k < zi_(d)) for k, d in zip(ks, dims)]
    for kk in itertools.product(*sols):
        # off the solution the iteration must leave the cell alone
        hyp = list(c.pc) + rngs + rk + [z3.Or(*[k != e for k, e in zip(ks, kk)])]
        st = c._solve(hyp, same_, 3000)
        if st[0] == "proved":
            return list(kk), z3.And(*[z3.And(e >= 0, e < zi_(d)) for e, d in zip(kk, dims)])
    return None


def subst_keep(m, hv):
    return m


class While:
    """Invariant rule for a while statement.  inv(get) -> condition over the loop's
    variables; values: name -> function giving an arbitrary value (default: an
    arbitrary number of the same kind); attrs: called to set the attributes the
    body assigns to arbitrary values."""

    def __init__(self, name, inv, values=None, attrs=None):
        self.name, self.inv, self.values, self.attrs = name, inv, values or {}, attrs
        self.entered = 0

    def _get(self, get):
        out = {}
        for k, f in get.items():
            try:
                out[k] = f()
            except NameError:
                pass
        return out

    def enter(self, get):
        self.entered += 1
        self.old = self._get(get)
        ctx().prove(self.name + ": invariant on entry", self.inv(self.old))
        if self.attrs:
            self.attrs()

    def havoc(self, n):
        if n in self.values:
            return self.values[n]()
        if n not in self.old:
            return Poison()
        v = self.old[n]
        if isinstance(v, (bool, np.bool_)):
            return V.SBool(ctx().fresh(n, z3.BoolSort()))
        if isinstance(v, (int, np.integer, SInt)):
            return V.fresh_int(n)
        if isinstance(v, (float, np.floating, V.SReal)):
            return V.fresh_real(n, nan=True)
        return Poison()

    def invariant(self, get):
        ctx().assume(self.inv(self._get(get)))

    def iterate(self):
        return ctx().choose()

    def need(self, t):
        if not t:
            raise Infeasible()

    def done(self, get):
        ctx().prove(self.name + ": invariant kept by an iteration", self.inv(self._get(get)))
        raise Infeasible()


def while_spec(fn, k):
    c = core.CUR
    return None if c is None else getattr(c, "loops", {}).get((fn, k))
