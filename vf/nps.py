"""numpy stand-in: real numpy when every argument is concrete, otherwise the
(trusted) semantic rule of the function over symbolic values, otherwise
Unsupported."""
import contextlib
import numpy as np
import z3
import astropy.units as u
from . import core
from .core import Unsupported, ctx, Or_, And_, Not_, zb, rv, b_false, b_true, R1, ATAN2
from . import values as V
from .values import (SArr, SSel, SReal, SInt, SBool, SCplx, SQuantity, Scalar, Sym, arr, lift,
                     elementwise, s_merge, s_bin, to_real, to_int, to_bool, to_cplx, zi, zi_, as_dim,
                     If_, In, Rl, Bo, ArrSort, wrap_int, prod_dims, unop, binop, arrid, _add, _mul,
                     kind_of_dtype, is_symbolic, dim_eq, SQuantity)

FAKE = {}      # fake builtin type -> real type


def any_sym(x, depth=0):
    if isinstance(x, (Sym, SWhere)) or getattr(type(x), "_siter", False):
        return True
    if isinstance(x, z3.ExprRef):
        return True
    if depth < 4:
        if isinstance(x, (list, tuple, set)):
            return any(any_sym(v, depth + 1) for v in x)
        if isinstance(x, dict):
            return any(any_sym(v, depth + 1) for v in x.values())
        if isinstance(x, slice):
            return any(any_sym(v) for v in (x.start, x.stop, x.step))
    return False


def unfake(x):
    try:
        if x in FAKE:
            return FAKE[x]
    except TypeError:
        pass
    return x


class SWhere:
    """np.where(mask): the indices of the true elements"""

    def __init__(self, mask):
        self.mask = mask

    def __getitem__(self, i):
        m = self.mask
        f = m.snap()
        return SSel(m._shape, lambda idx: lift(idx[i] if not isinstance(idx[i], int) else idx[i]), f, "i")

    def __len__(self):
        return self.mask.ndim

    def __iter__(self):
        return iter([self[i] for i in range(self.mask.ndim)])


_old_mask_key = V._mask_key


def _mask_key(key):
    if isinstance(key, SWhere):
        return key.mask
    return _old_mask_key(key)


V._mask_key = _mask_key


def norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    out = []
    for a in axis:
        a = int(a)
        if not -nd <= a < nd:
            raise ValueError("axis %d is out of bounds" % a)
        out.append(a % nd)
    return tuple(sorted(out))


class Red:
    """a reduction request: output dims, and for each output index the
    reduced dims, element getter and selection"""

    def __init__(self, a, axis=None, keepdims=False):
        if isinstance(a, SSel):
            if axis not in (None, 0, -1):
                raise ValueError("axis out of bounds")
            self.out, self.rd = (), a.bdims
            self.kind = a.kind
            fn, m = a.fn, a.mask
            self.el = lambda o, r: fn(r)
            self.sel = lambda o, r: to_bool(m(r)).c
        else:
            a = arr(a)
            ax = norm_axes(axis, a.ndim)
            rest = [i for i in range(a.ndim) if i not in ax]
            self.out = tuple(a._shape[i] for i in rest)
            self.rd = tuple(a._shape[i] for i in ax)
            self.kind = a.kind
            f, nd = a.snap(), a.ndim

            def el(o, r):
                idx = [None] * nd
                for i, v in zip(rest, o):
                    idx[i] = v
                for i, v in zip(ax, r):
                    idx[i] = v
                return f(tuple(idx))
            self.el = el
            self.sel = None
            if keepdims and rest:
                pos = rest
                full = [1] * nd
                for i in rest:
                    full[i] = a._shape[i]
                self.keep = (full, rest)
        self.keepdims = keepdims

    def finish(self, f, kind):
        """f(outidx) -> scalar"""
        if not self.out:
            return f(())
        if self.keepdims and hasattr(self, "keep"):
            full, rest = self.keep
            return SArr.new(full, lambda idx: f(tuple(idx[i] for i in rest)), kind)
        return SArr.new(self.out, f, kind)

    def masked(self, o, r, v, zero):
        return v if self.sel is None else z3.If(zb(self.sel(o, r)), v, zero)

    def selc(self, o, r):
        return True if self.sel is None else self.sel(o, r)

    def count(self, o, extra=None):
        """number of selected elements (z3 Int / int)"""
        if self.sel is None and extra is None:
            return prod_dims(self.rd)

        def body(r):
            c = self.selc(o, r)
            if extra is not None:
                c = And_(c, extra(self.el(o, r)))
            return If_(zb(c) if not isinstance(c, bool) else c, z3.IntVal(1), z3.IntVal(0))
        return zi(ctx().functional("isum", self.rd, body, sort=In))

    def any(self, o, pred):
        def body(r):
            return zb(And_(self.selc(o, r), pred(self.el(o, r))))
        # constant-false bodies fold
        probe = [z3.Int("probe!r%d" % i) for i in range(len(self.rd))]
        b = z3.simplify(body(tuple(probe)))
        if z3.is_false(b):
            return False
        if not self.rd:
            return body(())
        if all(isinstance(d, int) for d in self.rd) and prod_dims(self.rd) <= 32:
            import itertools
            return Or_(*[body(i) for i in itertools.product(*[range(d) for d in self.rd])])
        return ctx().functional("any", self.rd, body, sort=Bo)

    def sum_of(self, o, f, sort=None):
        """sum over selected of f(el) (z3 expr)"""
        zero = rv(0) if sort is None else z3.IntVal(0)
        if all(isinstance(d, int) for d in self.rd) and prod_dims(self.rd) <= 12:
            import itertools
            tot = zero
            for i in itertools.product(*[range(d) for d in self.rd]):
                tot = tot + self.masked(o, i, f(self.el(o, i)), zero)
            return tot
        return ctx().functional("sum" if sort is None else "isum", self.rd,
                                lambda r: self.masked(o, r, f(self.el(o, r)), zero),
                                sort=Rl if sort is None else sort)


def ssum_real(R, o, get, skipnan=False):
    """sum of real parts obtained by get(el) -> SReal"""
    nanp = lambda e: get(e).nan
    infp = lambda e: And_(get(e).inf, Not_(get(e).nan))
    nan = R.any(o, nanp)
    hp = R.any(o, lambda e: And_(infp(e), get(e).v > 0))
    hm = R.any(o, lambda e: And_(infp(e), get(e).v < 0))

    def val(e):
        g = get(e)
        v = g.v
        bad = Or_(g.nan if skipnan else False, g.inf)
        return If_(bad, rv(0), v)
    v = R.sum_of(o, val)
    if skipnan:
        nan = False
    if b_false(hp) and b_false(hm):
        return SReal(v, nan)
    return SReal(If_(hp, rv(1), If_(hm, rv(-1), v)), Or_(nan, And_(hp, hm)), Or_(hp, hm))


def _q(f):
    """make a shim function unit-preserving on its first argument"""
    def g(a, *args, **kw):
        if isinstance(a, SQuantity):
            r = f(a.value, *args, **kw)
            return V.mkq(r, a.unit)
        return f(a, *args, **kw)
    return g


def r_sum(a, axis=None, dtype=None, out=None, keepdims=False, skipnan=False, **kw):
    R = Red(a, axis, keepdims)
    if R.kind in "bi":
        return R.finish(lambda o: SInt(R.sum_of(o, lambda e: to_int(e).e, In)), "i")
    if R.kind == "f":
        return R.finish(lambda o: ssum_real(R, o, to_real, skipnan), "f")
    return R.finish(lambda o: SCplx(ssum_real(R, o, lambda e: to_cplx(e).re, skipnan),
                                    ssum_real(R, o, lambda e: to_cplx(e).im, skipnan)), "c")


def r_mean(a, axis=None, dtype=None, out=None, keepdims=False, skipnan=False, **kw):
    R = Red(a, axis, keepdims)

    def f(o):
        if R.kind == "c":
            n = to_real(lift(zi_(R.count(o))))
            s = SCplx(ssum_real(R, o, lambda e: to_cplx(e).re, skipnan),
                      ssum_real(R, o, lambda e: to_cplx(e).im, skipnan))
            return SCplx(V.r_div(s.re, n), V.r_div(s.im, n))
        s = ssum_real(R, o, to_real, skipnan)
        n = R.count(o, (lambda e: Not_(to_real(e).nan)) if skipnan and R.kind == "f" else None)
        return V.r_div(s, to_real(lift(zi_(n))))
    return R.finish(f, "c" if R.kind == "c" else "f")


def r_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, skipnan=False, **kw):
    R = Red(a, axis, keepdims)

    def f(o):
        s = ssum_real(R, o, to_real, skipnan)
        n = R.count(o, (lambda e: Not_(to_real(e).nan)) if skipnan and R.kind == "f" else None)
        nr = to_real(lift(zi_(n)))
        m = V.r_div(s, nr)

        def dev(e):
            d = V.r_add(to_real(e), V.r_neg(m))
            return V.r_mul(d, d)
        ss = ssum_real(R, o, dev, skipnan)
        if skipnan:
            ss = SReal(ss.v, Or_(ss.nan, m.nan), ss.inf)
        return V.r_div(ss, to_real(lift(zi_(n) - ddof)))
    return R.finish(f, "f")


def r_std(a, *args, **kw):
    return unop("sqrt", r_var(a, *args, **kw))


def r_ext(op):
    def g(a, axis=None, out=None, keepdims=False, skipnan=False, **kw):
        R = Red(a, axis, keepdims)
        sort = In if R.kind in "bi" else Rl
        if R.kind == "b":
            return r_any(a, axis) if op == "max" else r_all(a, axis)

        def f(o):
            if R.sel is not None:
                empty = not ctx().branch(R.any(o, lambda e: True))
            else:
                n = R.count(o)
                empty = (n == 0) if isinstance(n, int) else ctx().branch(n == 0)
            if empty:
                raise ValueError("zero-size array to reduction operation")
            small = R.sel is None and all(isinstance(d, int) for d in R.rd) and prod_dims(R.rd) <= 8
            if small:
                import itertools
                small = list(itertools.product(*[range(d) for d in R.rd]))

            def fold(vals):
                t = vals[0]
                for x in vals[1:]:
                    t = z3.If(t >= x if op == "max" else t <= x, t, x)
                return t
            if sort == In and small:
                return SInt(fold([zi_(to_int(R.el(o, r)).e) for r in small]))
            if sort == In:
                t = ctx().functional(op, R.rd, lambda r: [to_int(R.el(o, r)).e] +
                                     ([zb(R.sel(o, r))] if R.sel else []), sort=In)
                return SInt(t)
            get = lambda e: to_real(e)
            nan = R.any(o, lambda e: get(e).nan)
            hi = R.any(o, lambda e: And_(get(e).inf, Not_(get(e).nan), get(e).v > 0))
            lo = R.any(o, lambda e: And_(get(e).inf, Not_(get(e).nan), get(e).v < 0))
            fin = lambda e: And_(Not_(get(e).nan), Not_(get(e).inf))
            pe = tuple(z3.Int("probe!r%d" % i) for i in range(len(R.rd)))
            needsel = R.sel is not None or not b_true(fin(R.el(o, pe)))
            if needsel:
                body = lambda r: [get(R.el(o, r)).v, zb(And_(R.selc(o, r), fin(R.el(o, r))))]
                anyf = R.any(o, fin)
                if R.sel is not None and b_true(fin(R.el(o, pe))):
                    anyf = True         # not empty, as branched above
            else:
                body = lambda r: [get(R.el(o, r)).v]
                anyf = True
            if small and (not needsel or len(small) == 1):
                t = fold([get(R.el(o, r)).v for r in small])
            else:
                t = ctx().functional(op, R.rd, body, sort=Rl)
            first, second = (hi, lo) if op == "max" else (lo, hi)
            s1, s2 = (1, -1) if op == "max" else (-1, 1)
            if b_false(hi) and b_false(lo):
                return SReal(t, Or_(nan if not skipnan else False, Not_(anyf)))
            v = If_(first, rv(s1), If_(anyf, t, rv(s2)))
            inf = Or_(first, And_(Not_(anyf), second))
            return SReal(v, Or_(nan if not skipnan else False,
                                And_(Not_(anyf), Not_(hi), Not_(lo))), inf)
        return R.finish(f, "i" if sort == In else "f")
    return g


def r_any(a, axis=None, out=None, keepdims=False, **kw):
    if isinstance(a, SQuantity):
        raise TypeError("any of a quantity")
    if isinstance(a, (list, tuple)):
        a = arr(a)
    if isinstance(a, Scalar):
        return to_bool(a)
    R = Red(a, axis, keepdims)
    return R.finish(lambda o: SBool(R.any(o, lambda e: to_bool(e).c)), "b")


def r_all(a, axis=None, out=None, keepdims=False, **kw):
    if isinstance(a, (list, tuple)):
        a = arr(a)
    if isinstance(a, Scalar):
        return to_bool(a)
    R = Red(a, axis, keepdims)
    return R.finish(lambda o: SBool(Not_(R.any(o, lambda e: Not_(to_bool(e).c)))), "b")


def opaque_scalar(name, *keys, nan=False):
    """uninterpreted real of (contents of) keys"""
    terms = []
    for k in keys:
        if isinstance(k, (SArr, SSel)):
            terms.append(arrid(k))
        elif isinstance(k, Scalar) or V.is_num(k):
            terms += parts1(lift(k))
        elif isinstance(k, z3.ExprRef):
            terms.append(k)
        else:
            name += "_" + str(k)
    d = z3.Function("OP_" + name, *([t.sort() for t in terms] + [Rl]))
    return SReal(d(*terms) if terms else d(), nan)


def parts1(x):
    return V.parts(x)[:1]


def opaque_arr(name, dims, keys, kind="f", nonneg=False):
    terms = []
    for k in keys:
        if isinstance(k, (SArr, SSel)):
            terms.append(arrid(k))
        elif isinstance(k, Scalar) or V.is_num(k):
            terms += parts1(lift(k))
        elif isinstance(k, z3.ExprRef):
            terms.append(k)
        else:
            name += "_" + str(k)
    dims = [as_dim(d) for d in dims]
    sort = {"f": Rl, "i": In, "b": Bo}[kind]
    d = z3.Function("OPA_" + name, *([t.sort() for t in terms] + [In] * len(dims) + [sort]))
    if nonneg:
        ctx().nonneg_decls.add("OPA_" + name)
        ctx().decl_facts["OPA_" + name] = lambda app: [app >= 0]
    return SArr.new(dims, lambda idx: lift(d(*(terms + [zi_(i) for i in idx]))), kind)


def shape_arg(s):
    s = unfake(s)
    if isinstance(s, (SInt, int, np.integer)):
        return [as_dim(s)]
    return [as_dim(x) for x in s]


def full(shape, val, dtype=None):
    s = lift(val)
    k = kind_of_dtype(unfake(dtype)) or V.kind_of(s)
    s = V.cast_scalar(s, k)
    return SArr.new(shape_arg(shape), lambda idx: s, k)


def like(a, val, dtype=None):
    q = isinstance(a, SQuantity)
    base = a.value if q else a
    if isinstance(base, SSel):
        s = lift(val)
        k = kind_of_dtype(unfake(dtype)) or base.kind
        return base.map(lambda v: V.cast_scalar(s, k), k)
    if not isinstance(base, (SArr, np.ndarray)):
        base = arr(base)
    shape = base._shape if isinstance(base, SArr) else base.shape
    k = kind_of_dtype(unfake(dtype)) or (base.kind if isinstance(base, SArr) else kind_of_dtype(base.dtype))
    r = full(shape, V.cast_scalar(lift(val), k), V.DT[k])
    return SQuantity(r, a.unit) if q else r


def empty(shape, dtype=float, **kw):
    k = kind_of_dtype(unfake(dtype)) or "f"
    return fresh_contents(shape_arg(shape), k)


def fresh_contents(dims, k):
    """memory with unknown contents"""
    c = ctx()
    a = V.fresh_arr("mem", dims, kind=k, nan=(k == "f"), inf=(k == "f"), owner=None)
    return a


def arange(*args, **kw):
    dt = unfake(kw.get("dtype"))
    args = [x for x in args]
    unit = None
    if any(isinstance(x, (SQuantity, u.Quantity)) for x in args):
        raise Unsupported("arange of quantities")
    if len(args) == 1:
        a, b, st = 0, args[0], 1
    elif len(args) == 2:
        a, b, st = args[0], args[1], 1
    else:
        a, b, st = args
    a, b, st = lift(a), lift(b), lift(st)
    if all(isinstance(x, SInt) for x in (a, b, st)):
        if z3.is_int_value(z3.simplify(st.e)):
            s = z3.simplify(st.e).as_long()
            n = zi((b.e - a.e + (s - 1)) / s) if s > 0 else zi((a.e - b.e + (-s - 1)) / (-s))
        else:
            raise Unsupported("arange with a symbolic step")
        if isinstance(n, int):
            n = max(n, 0)
        elif ctx().decide(n >= 0) is not True:
            n = n if ctx().branch(n >= 0) else 0
        k = kind_of_dtype(dt) or "i"
        return SArr.new([n], lambda idx: V.cast_scalar(SInt(a.e + s * zi_(idx[0])), k), k)
    ra, rb, rs = to_real(a), to_real(b), to_real(st)
    q = V.r_div(V.r_add(rb, V.r_neg(ra)), rs)
    n = zi(-z3.ToInt(-q.v))
    if not isinstance(n, int) and ctx().decide(n >= 0) is not True:
        n = n if ctx().branch(n >= 0) else 0
    k = kind_of_dtype(dt) or "f"
    return SArr.new([n], lambda idx: V.cast_scalar(
        V.r_add(ra, V.r_mul(to_real(lift(zi_(idx[0]))), rs)), k), k)


def linspace(a, b, num=50, endpoint=True, dtype=None, **kw):
    if isinstance(a, (SQuantity, u.Quantity)) or isinstance(b, (SQuantity, u.Quantity)):
        if not (isinstance(a, SQuantity) and isinstance(b, SQuantity)):
            raise Unsupported("linspace of quantities")
        return V.mkq(linspace(a.value, b.to(a.unit).value, num, endpoint), a.unit)
    a, b = to_real(a), to_real(b)
    n = as_dim(num if isinstance(num, (SInt, int, np.integer)) else _bad("linspace num"))
    d = _add(n, -1) if endpoint else n

    def fn(idx):
        k = to_real(lift(zi_(idx[0])))
        step = V.r_div(V.r_add(b, V.r_neg(a)), to_real(lift(zi_(d)))) if not (isinstance(d, int) and d == 0) else SReal(rv(0))
        v = V.r_add(a, V.r_mul(k, step))
        if isinstance(d, int) and d == 0:
            return a
        if b_false(step.nan) and b_false(step.inf):
            return SReal(v.v, v.nan, v.inf)
        return s_merge(zi_(idx[0]) == 0, a, v)
    return SArr.new([n], fn, "f")


def _bad(m):
    raise Unsupported(m)


def roll(a, shift, axis=None):
    if isinstance(a, SQuantity):
        return SQuantity(roll(a.value, shift, axis), a.unit)
    a = arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("flattened roll")
        axis = 0
    axis = norm_axes(axis, a.ndim)
    shift = shift if isinstance(shift, (tuple, list)) else (shift,) * len(axis)
    f, dims = a.snap(), a._shape
    sh = []
    for s in shift:
        s = lift(s)
        if isinstance(s, SReal):
            s = V.trunc_int(s)
        sh.append(zi(s))

    def fn(idx):
        idx = list(idx)
        for ax, s in zip(axis, sh):
            d = dims[ax]
            e = idx[ax]
            if isinstance(e, int) and isinstance(s, int) and isinstance(d, int):
                idx[ax] = (e - s) % d
            elif isinstance(s, int) and s == 0:
                pass
            else:
                idx[ax] = zi((zi_(e) - s) % zi_(d))
        return f(tuple(idx))
    return SArr.new(dims, fn, a.kind)


def shift_map(inverse):
    def g(a, axes=None):
        if isinstance(a, SQuantity):
            return SQuantity(g(a.value, axes), a.unit)
        a = arr(a)
        ax = norm_axes(axes, a.ndim)
        sh = []
        for i in ax:
            n = a._shape[i]
            h = n // 2 if isinstance(n, int) else zi(n / 2)
            sh.append(wrap_int(h if not inverse else _mul(h, -1)))
        return roll(a, tuple(sh), ax)
    return g


def fftfreq(n, d=1.0):
    n = as_dim(n)
    rd = to_real(d)

    def fn(idx):
        k = zi_(idx[0])
        h = (zi_(n) - 1) / 2 + 1 if not isinstance(n, int) else z3.IntVal((n - 1) // 2 + 1)
        kk = z3.If(k < h, k, k - zi_(n))
        return V.r_div(SReal(z3.ToReal(kk)), V.r_mul(to_real(lift(zi_(n))), rd))
    return SArr.new([n], fn, "f")


def rfftfreq(n, d=1.0):
    n = as_dim(n)
    m = n // 2 + 1 if isinstance(n, int) else zi(n / 2 + 1)
    return SArr.new([m], lambda idx: V.r_div(to_real(lift(zi_(idx[0]))),
                                             V.r_mul(to_real(lift(zi_(n))), to_real(d))), "f")


def _fft_decls(nd, tag):
    dom = [ArrSort] + [In] * nd
    return (z3.Function("F%sRE%d" % (tag, nd), *(dom + [Rl])), z3.Function("F%sIM%d" % (tag, nd), *(dom + [Rl])),
            z3.Function("F%sABS%d" % (tag, nd), *(dom + [Rl])))


def register_fft(nd, tag, dims, hermitian, A):
    """instance axioms of the transform of the array with identity A"""
    c = ctx()
    re, im, ab = _fft_decls(nd, tag)
    key = ("fft", tag, nd)
    reg = c.__dict__.setdefault("fft_reg", {})
    if getattr(c, "fft_path", None) is not c.pc:
        reg.clear()
        c.fft_path = c.pc
    reg.setdefault(key, []).append((A, tuple(zi_(d) for d in dims), hermitian))

    def neg(idx, ds):
        return [z3.If(i == 0, z3.IntVal(0), d - i) for i, d in zip(idx, ds)]

    def mk(fn, sign):
        def facts(app):
            out = []
            a, idx = app.arg(0), [app.arg(i + 1) for i in range(nd)]
            if fn is ab:
                out.append(app >= 0)
                out.append(app * app == re(a, *idx) * re(a, *idx) + im(a, *idx) * im(a, *idx))
            for A0, ds, herm in reg.get(key, []):
                if herm and a.eq(A0):
                    rng = [z3.And(i >= 0, i < d) for i, d in zip(idx, ds)]
                    other = fn(a, *neg(idx, ds))
                    out.append(z3.Implies(z3.And(*rng), app == (other if sign > 0 else -other)))
            return out
        return facts
    c.decl_facts[re.name()] = mk(re, 1)
    c.decl_facts[im.name()] = mk(im, -1)
    c.decl_facts[ab.name()] = mk(ab, 1)
    c.nonneg_decls.add(ab.name())
    return re, im, ab


def fftn(a, s=None, axes=None, norm=None, half=False, tag=None, one_d=None, **kw):
    if isinstance(a, SQuantity):
        a = a.value
    a = arr(a)
    if s is not None or norm is not None:
        raise Unsupported("fft with s/norm")
    nd = a.ndim
    if axes is not None:
        ax = norm_axes(axes, nd)
        if ax != tuple(range(nd)):
            tag = (tag or "") + "AX" + "".join(map(str, ax))
            herm_ok = False
        else:
            herm_ok = True
    else:
        herm_ok = True
    real = a.kind != "c"
    A = arrid(a, extra="fft")
    dims = list(a._shape)
    re, im, ab = register_fft(nd, tag or "", dims, real and herm_ok, A)
    nanany = Red(a).any((), lambda e: to_real(e).nan if real else Or_(to_cplx(e).re.nan, to_cplx(e).im.nan))
    out = list(dims)
    if half:
        out[-1] = out[-1] // 2 + 1 if isinstance(out[-1], int) else zi(out[-1] / 2 + 1)

    def fn(idx):
        z = [zi_(i) for i in idx]
        return SCplx(SReal(re(A, *z), nanany), SReal(im(A, *z), nanany), ab(A, *z))
    return SArr.new(out, fn, "c")


def ifftn(a, *args, **kw):
    for k in ("s", "norm"):
        if kw.get(k) is not None:
            raise Unsupported("ifft with " + k)
    a2 = arr(a.value if isinstance(a, SQuantity) else a)
    return fftn(a2, tag="I" + kw.get("tag", ""), axes=kw.get("axes"))


def irfftn(a, s=None, axes=None, norm=None):
    """a real array that is a function of the coefficients and the output shape"""
    a = arr(a)
    if norm is not None or axes is not None and tuple(norm_axes(axes, a.ndim)) != tuple(range(a.ndim)):
        raise Unsupported("irfftn with axes/norm")
    if s is None:
        m = a._shape[-1]
        dims = list(a._shape[:-1]) + [2 * (m - 1) if isinstance(m, int) else zi(z3.simplify(2 * (m - 1)))]
    else:
        dims = [as_dim(d) for d in s]
        if len(dims) != a.ndim:
            raise Unsupported("irfftn with another rank")
    A = arrid(a, extra="fft")
    nd = a.ndim
    fn = z3.Function("IRFFT%d" % nd, *([ArrSort] + [In] * (2 * nd) + [Rl]))
    ds = [zi_(d) for d in dims]
    return SArr.new(dims, lambda idx: SReal(fn(A, *(ds + [zi_(i) for i in idx]))), "f")


def concatenate(parts, axis=0):
    parts = [p for p in parts]
    if any(isinstance(p, (SQuantity, u.Quantity)) for p in parts):
        raise Unsupported("concatenate quantities")
    if any(isinstance(p, SSel) for p in parts):
        raise Unsupported("concatenate selections")
    parts = [arr(p) for p in parts]
    nd = parts[0].ndim
    axis = norm_axes(axis, nd)[0]
    for p in parts[1:]:
        if p.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for i in range(nd):
            if i != axis and not dim_eq(p._shape[i], parts[0]._shape[i]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    k = max((p.kind for p in parts), key="bifc".index)
    fs = [p.snap() for p in parts]
    offs = [0]
    for p in parts:
        offs.append(_add(offs[-1], p._shape[axis]))
    dims = list(parts[0]._shape)
    dims[axis] = offs[-1]

    def fn(idx):
        e = idx[axis]
        r = None
        for n in range(len(parts) - 1, -1, -1):
            j = tuple(_add(e, _mul(offs[n], -1)) if i == axis else x for i, x in enumerate(idx))
            if isinstance(e, int) and all(isinstance(o, int) for o in offs):
                if offs[n] <= e < offs[n + 1]:
                    return V.cast_scalar(fs[n](j), k)
                continue
            v = V.cast_scalar(fs[n](j), k)
            r = v if r is None else s_merge(zb(V._lt(e, offs[n + 1])), v, r)
        return r
    return SArr.new(dims, fn, k)


def stack_axis(parts, axis):
    parts = [arr(p) for p in parts]
    k = max((p.kind for p in parts), key="bifc".index)
    base = parts[0]._shape
    for p in parts[1:]:
        if len(p._shape) != len(base) or not all(dim_eq(x, y) for x, y in zip(p._shape, base)):
            raise ValueError("all input arrays must have the same shape")
    fs = [p.snap() for p in parts]
    nd = len(base) + 1
    axis = axis % nd
    dims = list(base[:axis]) + [len(parts)] + list(base[axis:])

    def fn(idx):
        rest = tuple(idx[:axis]) + tuple(idx[axis + 1:])
        return V.pick([V.cast_scalar(f(rest), k) for f in fs], idx[axis])
    return SArr.new(dims, fn, k)


def meshgrid(*xs, indexing="xy", **kw):
    xs = [arr(x) for x in xs]
    n = len(xs)
    order = list(range(n))
    dims = [x._shape[0] for x in xs]
    if indexing == "xy" and n > 1:
        dims[0], dims[1] = dims[1], dims[0]
        order[0], order[1] = 1, 0
    out = []
    for i, x in enumerate(xs):
        f = x.snap()
        out.append(SArr.new(dims, lambda idx, f=f, j=order[i]: f((idx[j],)), x.kind))
    return out


class MGrid:
    def __getitem__(self, key):
        if not any_sym(key):
            return np.mgrid[key]
        if not isinstance(key, tuple):
            key = (key,)
        axes = []
        for s in key:
            if isinstance(s.step, complex):
                raise Unsupported("mgrid with complex step")
            axes.append(arr(np_shim.arange(*( [s.start or 0, s.stop] + ([s.step] if s.step is not None else [])))))
        outs = meshgrid(*axes, indexing="ij")
        return MGridOut(outs) if len(outs) > 1 else outs[0]


class MGridOut(list):
    pass


class OGrid:
    def __getitem__(self, key):
        if not any_sym(key):
            return np.ogrid[key]
        axes = []
        n = len(key)
        for i, s in enumerate(key):
            a = arr(np_shim.arange(s.start or 0, s.stop))
            shape = [None] * n
            axes.append(a[tuple(slice(None) if j == i else None for j in range(n))])
        return axes


def pad(a, width, mode="constant", **kw):
    if isinstance(a, SQuantity):
        a2 = pad(a.value, width, mode, **kw)
        return SQuantity(a2, a.unit)
    a = arr(a)
    nd = a.ndim
    w = width
    if isinstance(w, (int, SInt, np.integer)):
        w = [(w, w)] * nd
    elif isinstance(w, (tuple, list)) and len(w) == 2 and all(isinstance(x, (int, SInt, np.integer)) for x in w):
        w = [tuple(w)] * nd
    elif isinstance(w, (tuple, list)) and len(w) == 1:
        x = w[0]
        w = [tuple(x) if isinstance(x, (tuple, list)) else (x, x)] * nd
    if callable(mode):
        name = getattr(mode, "__name__", "")
        return pad_callable(a, w, mode, kw)
    w = [(as_dim(p), as_dim(q)) for p, q in w]
    for p, q in w:
        for x in (p, q):
            neg = x < 0 if isinstance(x, int) else ctx().branch(x < 0)
            if neg:
                raise ValueError("index can't contain negative values")
    f, dims = a.snap(), a._shape
    out = [_add(_add(d, p), q) for d, (p, q) in zip(dims, w)]
    cv = kw.get("constant_values", 0)
    if mode == "constant":
        if isinstance(cv, (tuple, list)):
            raise Unsupported("pad constant_values tuple")
        c = V.cast_scalar(lift(cv), a.kind)

        def fn(idx):
            j = tuple(_add(i, _mul(p, -1)) for i, (p, q) in zip(idx, w))
            ins = And_(*[x for jj, d in zip(j, dims) for x in (V._le(0, jj), V._lt(jj, d))])
            if ins is True:
                return f(j)
            if ins is False:
                return c
            return s_merge(ins, f(j), c)
    elif mode == "wrap":
        def fn(idx):
            j = tuple((i - p) % d if all(isinstance(x, int) for x in (i, p, d)) else
                      zi((zi_(i) - zi_(p)) % zi_(d)) for i, (p, q), d in zip(idx, w, dims))
            return f(j)
    else:
        raise Unsupported("pad mode %r" % (mode,))
    return SArr.new(out, fn, a.kind)


def pad_callable(a, w, mode, kw):
    """np.pad with a user function: the function is run on an arbitrary vector
    along each axis in turn, as numpy does"""
    from .rt import subst_scalar
    c = ctx()
    cur = pad(a, w, "constant")
    for ax in range(cur.ndim):
        dims = cur._shape
        o = [None if j == ax else c.index("pv", 0, zi_(d), assume=False) for j, d in enumerate(dims)]
        f = cur.snap()
        vec = SArr.new([dims[ax]], lambda idx, f=f, o=o, ax=ax: f(tuple(idx[0] if j == ax else x for j, x in enumerate(o))), a.kind)
        pw = tuple(V.wrap_int(as_dim(x)) for x in w[ax])
        mode(vec, pw, ax, kw)
        g = vec.snap()

        def fn(idx, g=g, o=o, ax=ax):
            v = g((idx[ax],))
            return subst_scalar(v, [(x, zi_(idx[j])) for j, x in enumerate(o) if x is not None])
        cur = SArr.new(dims, fn, a.kind)
    return cur


def where(c, a=None, b=None):
    if a is None and b is None:
        if isinstance(c, SArr):
            return SWhere(c if c.kind == "b" else unop("notl", unop("notl", c)))
        raise Unsupported("where of %s" % type(c))
    if any(isinstance(x, (SQuantity, u.Quantity)) for x in (a, b)):
        raise Unsupported("where with quantities")
    return elementwise(lambda k, x, y: s_merge(to_bool(k).c, x, y), c, a, b)


def diff(a, n=1, axis=-1, **kw):
    if isinstance(a, SQuantity):
        return SQuantity(diff(a.value, n, axis), a.unit)
    a = arr(a)
    axis = norm_axes(axis, a.ndim)[0]
    f = a.snap()
    dims = list(a._shape)
    dims[axis] = _add(dims[axis], -1)

    def fn(idx):
        up = tuple(_add(x, 1) if i == axis else x for i, x in enumerate(idx))
        return s_bin("sub", f(up), f(tuple(idx)))
    return SArr.new(dims, fn, a.kind if a.kind != "b" else "i")


def cumsum(a, axis=None, **kw):
    a = arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of n-d arrays")
    f = a.snap()
    isint = a.kind in "bi"

    def fn(idx):
        n = _add(idx[0], 1)
        if isint:
            return SInt(ctx().functional("isum", [n], lambda r: to_int(f(r)).e, sort=In))
        nan = ctx().functional("any", [n], lambda r: zb(to_real(f(r)).nan), sort=Bo) \
            if not b_false(to_real(f((z3.Int("probe!r0"),))).nan) else False
        return SReal(ctx().functional("sum", [n], lambda r: to_real(f(r)).v), nan)
    return SArr.new(a._shape, fn, "i" if isint else "f")


def nan_to_num(a, copy=True, nan=0.0, **kw):
    if isinstance(a, SQuantity):
        return SQuantity(nan_to_num(a.value, copy), a.unit)
    big = rv(np.finfo(float).max)

    def f(x):
        if not isinstance(x, SReal):
            return x
        v = If_(x.inf, If_(x.v > 0, big, -big), x.v)
        return SReal(If_(x.nan, to_real(nan).v, v))
    r = elementwise(f, a)
    if copy is False and isinstance(a, SArr):
        a._assign(r)
        return a
    return r


def atan2(y, x):
    def f(a, b):
        a, b = to_real(a), to_real(b)
        return SReal(ATAN2(a.v, b.v), Or_(a.nan, b.nan))
    return elementwise(f, y, x)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = to_real(x), to_real(y)
        d = V.s_abs(V.r_add(x, V.r_neg(y)))
        tol = V.r_add(to_real(atol), V.r_mul(to_real(rtol), V.s_abs(y)))
        r = V.r_cmp("le", d, tol)
        if equal_nan:
            r = SBool(Or_(r.c, And_(x.nan, y.nan)))
        return r
    if isinstance(a, (SQuantity, u.Quantity)) or isinstance(b, (SQuantity, u.Quantity)):
        raise Unsupported("isclose of quantities")
    return elementwise(f, a, b)


def dot(a, b, out=None):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return binop("mul", a, b)
    fa, fb = a.snap(), b.snap()
    n = a._shape[-1]
    m = b._shape[0] if b.ndim == 1 else b._shape[-2]
    if not dim_eq(n, m):
        raise ValueError("shapes not aligned")
    oa, ob = a._shape[:-1], (b._shape[1:] if b.ndim <= 2 else _bad("dot of n-d arrays"))
    prod = SArr.new(tuple(oa) + tuple(ob) + (n,),
                    lambda idx: s_bin("mul", fa(tuple(idx[:len(oa)]) + (idx[-1],)),
                                      fb((idx[-1],) + tuple(idx[len(oa):-1]))),
                    max(a.kind, b.kind, key="bifc".index))
    return r_sum(prod, axis=-1) if prod.ndim > 1 else r_sum(prod)


def np_array(x, dtype=None, copy=True, ndmin=0, **kw):
    dtype = unfake(dtype)
    if isinstance(x, SQuantity):
        x = x.value
    if isinstance(x, SSel):
        r = x.copy()
        return r.astype(dtype) if dtype is not None else r
    if isinstance(x, MGridOut):
        return stack_axis(list(x), 0)
    if isinstance(x, (list, tuple)) and any(isinstance(v, (SQuantity, u.Quantity)) for v in x):
        raise Unsupported("array of quantities")
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, (list, tuple)) for v in x):
        x = [arr(list(v)) if any_sym(v) else np.asarray(v) for v in x]
    a = arr(x)
    if isinstance(x, SArr) and copy:
        a = a.copy()
    if dtype is not None and V.DT[kind_of_dtype(dtype)] != a.dtype:
        a = a.astype(dtype)
    return a


def asarray(x, dtype=None, **kw):
    return np_array(x, dtype, copy=False)


def histogram(a, bins=10, range=None, density=None, weights=None, **kw):
    """the counts of the half-open bins (the last one closed) and, with density, those
    divided by the total count and the bin widths; equal bins over the data range (or
    the given range) when a number of bins is asked for"""
    c = ctx()
    if isinstance(a, SQuantity) or isinstance(bins, SQuantity) or weights is not None:
        raise Unsupported("histogram of quantities or with weights")
    src = a if isinstance(a, (SArr, SSel)) else arr(a)
    R = Red(src)
    if isinstance(bins, str):
        raise Unsupported("histogram bins by name")
    if isinstance(bins, (int, SInt, np.integer)):
        nb = as_dim(bins)
        if c.branch(zi_(nb) < 1):
            raise ValueError("`bins` must be positive, when an integer")
        if range is not None:
            lo, hi = to_real(lift(range[0])), to_real(lift(range[1]))
        else:
            bad = R.any((), lambda e: Or_(to_real(e).nan, to_real(e).inf))
            if c.branch(zb(bad)):
                raise ValueError("autodetected range is not finite")
            if c.branch(zi_(R.count(())) == 0):
                lo, hi = lift(0.0), lift(1.0)
            else:
                lo, hi = to_real(lift(r_ext("min")(src))), to_real(lift(r_ext("max")(src)))
        if range is None:
            c.assume((lo <= hi).c)          # the minimum is not above the maximum
        elif c.branch((lo > hi).c):
            raise ValueError("max must be larger than min in range parameter.")
        if c.branch((lo == hi).c):
            lo, hi = lo - 0.5, hi + 0.5
        edges = linspace(lo, hi, wrap_int(_add(nb, 1)))
    else:
        edges = arr(bins)
        if edges.ndim != 1:
            raise ValueError("`bins` must be 1d, when an array")
        nb = _add(edges._shape[0], -1)
    ef = edges.snap()

    def cnt(k):
        lo, hi = to_real(ef((k,))), to_real(ef((zi(zi_(k) + 1),)))
        last = zi_(k) == zi_(nb) - 1

        def body(r):
            x = to_real(R.el((), r))
            ok = And_(R.selc((), r), (x >= lo).c, Or_((x < hi).c, And_(last, (x <= hi).c)))
            return If_(zb(ok), z3.IntVal(1), z3.IntVal(0))
        return ctx().functional("isum", R.rd, body, sort=In)
    if not density:
        out = SArr.new([nb], lambda idx: SInt(cnt(idx[0])), "i")
    else:
        tot = ctx().functional("isum", [nb], lambda r: zi_(cnt(r[0])), sort=In)

        def f(idx):
            w = to_real(ef((zi(zi_(idx[0]) + 1),))) - to_real(ef(idx))
            return V.r_div(V.r_div(to_real(SInt(cnt(idx[0]))), w), to_real(SInt(tot)))
        out = SArr.new([nb], f, "f")
    c.log.append(("histogram", dict(a=src, bins=edges, density=density, weights=weights, out=out)))
    return out, edges


def percentile(a, q, axis=None, **kw):
    if axis is not None:
        raise Unsupported("percentile axis")
    if isinstance(a, SQuantity):
        return SQuantity(percentile(a.value, q), a.unit)
    src = a if isinstance(a, (SArr, SSel)) else arr(a)
    nan = Red(src).any((), lambda e: to_real(e).nan)

    def one(qq):
        if not is_symbolic(qq) and not 0 <= float(qq) <= 100:
            raise ValueError("Percentiles must be in the range [0, 100]")
        if is_symbolic(qq):
            qr = to_real(qq)
            if ctx().branch(Or_(qr.nan, qr.v < 0, qr.v > 100)):
                raise ValueError("Percentiles must be in the range [0, 100]")
        return opaque_scalar("percentile", src, to_real(qq), nan=nan)
    if isinstance(q, (list, tuple)):
        return arr([one(x) for x in q])
    if isinstance(q, np.ndarray) and q.ndim:
        return arr([one(x) for x in q.tolist()])
    if isinstance(q, SArr) and q.ndim:
        raise Unsupported("percentile of a symbolic array of q")
    return one(q)


def sort(a, axis=-1, **kw):
    a = a if isinstance(a, SSel) else arr(a)
    if isinstance(a, SArr) and a.ndim != 1:
        raise Unsupported("sort n-d")
    n = a.size
    return opaque_arr("sorted", [n], [a])


UNARY = {"sqrt": "sqrt", "log": "log", "log10": "log10", "exp": "exp", "cos": "cos", "sin": "sin", "tan": "tan",
         "arctan": "atan", "abs": "abs", "absolute": "abs", "fabs": "abs", "floor": "floor", "ceil": "ceil",
         "rint": "rint", "isnan": "isnan", "isfinite": "isfinite", "isinf": "isinf", "sign": "sign",
         "conj": "conj", "conjugate": "conj", "real": "real", "imag": "imag", "logical_not": "notl",
         "negative": "neg", "invert": "not"}
BINARY = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div",
          "power": "pow", "less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge",
          "equal": "eq", "not_equal": "ne", "floor_divide": "floordiv", "mod": "mod", "remainder": "mod"}


def _un(name):
    op = UNARY[name]

    def f(a, out=None, **kw):
        if isinstance(a, (list, tuple)):
            a = arr(a)
        r = unop(op, a)
        if out is not None:
            out._assign(r)
            return out
        return r
    return f


def _bi(name):
    op = BINARY[name]

    def f(a, b, out=None, **kw):
        a = arr(a) if isinstance(a, (list, tuple)) else a
        b = arr(b) if isinstance(b, (list, tuple)) else b
        r = binop(op, a, b)
        if out is not None:
            out._assign(r)
            return out
        return r
    return f


def _log2(which):
    def f(a, b, out=None, **kw):
        def g(x, y):
            x, y = to_bool(x).c, to_bool(y).c
            return SBool(And_(x, y) if which == "and" else (Or_(x, y) if which == "or" else z3.Xor(x, y)))
        r = elementwise(g, a, b)
        if out is not None:
            out._assign(r)
            return out
        return r
    return f


def _ext2(f):
    def g(a, b, **kw):
        if V.has_unit(a) or V.has_unit(b):
            raise Unsupported("maximum/minimum of quantities")
        return elementwise(f, a, b)
    return g


class RandomShim:
    """numpy.random: results are unknown values; the state changes are logged"""

    def __getattr__(self, name):
        real = getattr(np.random, name)

        def f(*a, **k):
            if core.CUR is None or not getattr(core.CUR, "rng", None):
                if any_sym(a) or any_sym(k):
                    raise Unsupported("np.random.%s" % name)
                return real(*a, **k)
            return core.CUR.rng.call(name, a, k)
        if core.CUR is not None and getattr(core.CUR, "rng", None) and name in ("RandomState", "default_rng"):
            from . import rng
            return rng.SRandomState
        if isinstance(real, type):
            return real
        return f


class FFTShim:
    def __getattr__(self, name):
        real = getattr(np.fft, name)
        rules = {"fftfreq": fftfreq, "rfftfreq": rfftfreq, "fftshift": shift_map(False),
                 "ifftshift": shift_map(True), "fftn": fftn, "fft2": fftn,
                 "rfftn": lambda a, **k: fftn(a, half=True, **k), "rfft2": lambda a, **k: fftn(a, half=True, **k),
                 "irfftn": irfftn, "irfft2": irfftn,
                 "ifftn": ifftn, "ifft2": ifftn,
                 "fft": lambda a, n=None, axis=-1, **k: fftn(a, axes=(axis,), **k) if n is None else _bad("fft n"),
                 "ifft": lambda a, n=None, axis=-1, **k: ifftn(a, axes=(axis,)) if n is None else _bad("ifft n")}
        hooks = core.CUR.__dict__.get("np_hooks", {}) if core.CUR is not None else {}
        return dispatch("fft." + name, real, hooks.get("fft." + name) or rules.get(name))


ALLOC = {"zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like"}


def dispatch(name, real, rule):
    def f(*a, **k):
        if core.CUR is not None and name in ALLOC:
            return rule(*a, **k)
        if not (any_sym(a) or any_sym(k)):
            a = tuple(unfake(x) for x in a)
            k = {n: unfake(v) for n, v in k.items()}
            return real(*a, **k)
        if rule is None:
            raise Unsupported("numpy.%s on symbolic values" % name)
        return rule(*a, **k)
    f.__name__ = name.split(".")[-1]
    f.real = real
    return f


def norm(a, ord=None, axis=None, **kw):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    if isinstance(a, SQuantity):
        return SQuantity(norm(a.value, ord, axis), a.unit)
    ab = unop("abs", a)
    return unop("sqrt", r_sum(binop("mul", ab, ab), axis=axis))


class LinalgShim:
    def __getattr__(self, name):
        real = getattr(np.linalg, name)
        if isinstance(real, type):
            return real
        rules = {"norm": norm}
        hooks = core.CUR.__dict__.get("np_hooks", {}) if core.CUR is not None else {}
        return dispatch("linalg." + name, real, hooks.get("linalg." + name) or rules.get(name))


def digitize(x, bins, right=False):
    raise Unsupported("digitize")


def tile(a, reps):
    raise Unsupported("tile")


def ptp(a, axis=None):
    return binop("sub", r_ext("max")(a, axis), r_ext("min")(a, axis))


def median(a, axis=None, **kw):
    if axis is not None:
        raise Unsupported("median axis")
    if isinstance(a, SQuantity):
        return SQuantity(median(a.value), a.unit)
    src = a if isinstance(a, (SArr, SSel)) else arr(a)
    return opaque_scalar("median", src, nan=Red(src).any((), lambda e: to_real(e).nan))


def sk(f):
    return lambda *a, **k: f(*a, skipnan=True, **k)


def np_round(a, decimals=0, out=None):
    if decimals != 0:
        raise Unsupported("round decimals")
    return unop("rint", a)


def allclose(a, b, **k):
    return r_all(isclose(a, b, **k))


def array_equal(a, b, equal_nan=False):
    if equal_nan:
        raise Unsupported("array_equal with equal_nan")
    if isinstance(a, SQuantity) or isinstance(b, SQuantity):
        un = [getattr(x, "unit", u.dimensionless_unscaled) for x in (a, b)]
        if not un[0].is_equivalent(un[1]):
            return False
        b = b.to(un[0]).value if hasattr(b, "to") else b
        a = a.value if hasattr(a, "value") else a
    a, b = arr(a), arr(b)
    if isinstance(a, SSel) or isinstance(b, SSel):
        raise Unsupported("array_equal of selections")
    if len(a._shape) != len(b._shape):
        return False
    for x, y in zip(a._shape, b._shape):
        if not ctx().branch(V._eq(V.zi_(x), V.zi_(y))):
            return False
    return r_all(a == b)



def append(a, b, axis=None):
    a, b = arr(a), arr(b)
    if axis is None:
        a = a if a.ndim == 1 else a.reshape(-1) if a.ndim else arr([a.get(())])
        b = b if b.ndim == 1 else b.reshape(-1) if b.ndim else arr([b.get(())])
        return concatenate([a, b])
    return concatenate([a, b], axis)


def delete(a, obj, axis=None):
    if isinstance(obj, (list, tuple)) and not len(obj):
        a = arr(a)
        return a.copy() if axis is not None or a.ndim == 1 else a.reshape(-1).copy()
    raise Unsupported("delete on symbolic values")


def vstack(ps):
    ps = [arr(p) for p in ps]
    if all(p.ndim == 1 for p in ps):
        return stack_axis(ps, 0)
    return concatenate(ps, 0)


def hstack(ps):
    ps = [arr(p) for p in ps]
    return concatenate(ps, 0 if ps[0].ndim == 1 else 1)


def column_stack(ps):
    return stack_axis([arr(p) for p in ps], 1)


def dstack(ps):
    ps = [arr(p) for p in ps]
    if any(p.ndim not in (2, 3) for p in ps):
        raise Unsupported("dstack")
    return concatenate([p if p.ndim == 3 else p[:, :, None] for p in ps], 2)


def diag(a, k=0):
    a = arr(a)
    if a.ndim != 2 or k != 0:
        raise Unsupported("diag")
    h, w = a._shape
    if not dim_eq(h, w):
        raise Unsupported("diag of a non-square matrix")
    f = a.snap()
    return SArr.new([h], lambda i: f((i[0], i[0])), a.kind)


def moveaxis(a, src, dst):
    a = arr(a)
    order = [i for i in range(a.ndim) if i != src % a.ndim]
    order.insert(dst % a.ndim, src % a.ndim)
    return a.transpose(*order)


def rollaxis(a, axis, start=0):
    a = arr(a)
    axis, start = axis % a.ndim, start + (a.ndim if start < 0 else 0)
    return moveaxis(a, axis, start - 1 if axis < start else start)


def shape_of(a):
    return a.shape if hasattr(a, "shape") else arr(a).shape


def real_if_close(a, tol=100):
    ctx().opaque = True
    raise Unsupported("real_if_close")


def clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = elementwise(V.s_max, r, lo)
    if hi is not None:
        r = elementwise(V.s_min, r, hi)
    return r


def ones_zeros(val):
    def f(shape, dtype=float, **kw):
        return full(shape, val, unfake(dtype))
    return f


RULES = {"sum": _q(r_sum), "nansum": _q(sk(r_sum)), "mean": _q(r_mean), "nanmean": _q(sk(r_mean)),
         "average": _q(r_mean),
         "var": r_var, "nanvar": sk(r_var), "std": _q(r_std), "nanstd": _q(sk(r_std)),
         "max": _q(r_ext("max")), "amax": _q(r_ext("max")), "nanmax": _q(sk(r_ext("max"))),
         "min": _q(r_ext("min")), "amin": _q(r_ext("min")), "nanmin": _q(sk(r_ext("min"))),
         "array_equal": array_equal, "any": r_any, "all": r_all, "logical_and": _log2("and"), "logical_or": _log2("or"),
         "logical_xor": _log2("xor"),
         "arange": arange, "linspace": linspace,
         "logspace": lambda a, b, num=50, **k: binop("pow", 10.0, linspace(a, b, num)),
         "roll": roll, "meshgrid": meshgrid, "pad": pad, "where": where, "nonzero": lambda a: where(a), "diff": diff, "cumsum": cumsum,
         "concatenate": concatenate, "append": append, "delete": delete, "vstack": vstack, "hstack": hstack, "dstack": dstack,
         "column_stack": column_stack, "rollaxis": rollaxis, "diag": diag, "diagonal": diag, "moveaxis": moveaxis, "stack": lambda ps, axis=0: stack_axis(ps, axis),
         "nan_to_num": nan_to_num, "arctan2": atan2, "isclose": isclose, "allclose": allclose, "dot": dot,
         "matmul": dot,
         "array": np_array, "asarray": asarray, "asanyarray": lambda x, **k: x if isinstance(x, SQuantity) else asarray(x, **k),
         "ascontiguousarray": asarray, "atleast_1d": lambda a: a if getattr(a, "ndim", 0) else arr([a]),
         "zeros": ones_zeros(0.0), "ones": ones_zeros(1.0), "empty": empty, "full": full,
         "zeros_like": lambda a, dtype=None, **k: like(a, 0, dtype), "ones_like": lambda a, dtype=None, **k: like(a, 1, dtype),
         "full_like": lambda a, v, dtype=None, **k: like(a, v, dtype),
         "empty_like": lambda a, dtype=None, **k: empty((a._shape if isinstance(a, SArr) else arr(a)._shape),
                                                        dtype if dtype is not None else V.DT[arr(a).kind]),
         "histogram": histogram, "percentile": _q(percentile), "nanpercentile": _q(lambda a, q, **k: nanpercentile(a, q, **k)),
         "sort": sort, "median": median, "nanmedian": lambda a, **k: nanmedian(a, **k),
         "ptp": ptp, "round": np_round, "around": np_round, "hypot": lambda a, b: elementwise(
             lambda x, y: V.s_sqrt(V.r_add(V.r_mul(to_real(x), to_real(x)), V.r_mul(to_real(y), to_real(y)))), a, b),
         "maximum": _ext2(V.s_max), "minimum": _ext2(V.s_min), "clip": clip,
         "squeeze": lambda a, **k: a.squeeze(**k), "transpose": lambda a, ax=None: a.transpose(*(ax or ())),
         "ravel": lambda a: a.ravel(), "reshape": lambda a, s, **k: a.reshape(s), "copy": lambda a, **k: a.copy(),
         "shape": shape_of, "ndim": lambda a: a.ndim, "size": lambda a: a.size,
         "count_nonzero": lambda a, **k: r_sum(unop("notl", unop("notl", a))),
         "flipud": lambda a: a[::-1], "fliplr": lambda a: a[:, ::-1],
         "expand_dims": lambda a, ax: a[tuple([slice(None)] * ax + [None])],
         "isscalar": lambda a: isinstance(a, Scalar), "prod": lambda a, **k: r_prod(a, **k),
         "float64": lambda a: to_real(a) if isinstance(a, Scalar) else a.astype(float),
         "int64": lambda a: V.trunc_int(a), "square": lambda a: binop("mul", a, a),
         "deg2rad": lambda a: binop("mul", a, np.pi / 180), "swapaxes": lambda a, i, j: a.swapaxes(i, j),
         "flip": lambda a, axis=None: a[tuple(slice(None, None, -1) if (axis is None or i in norm_axes(axis, a.ndim)) else slice(None) for i in range(a.ndim))],
         }
for n_ in UNARY:
    RULES[n_] = _un(n_)
for n_ in BINARY:
    RULES[n_] = _bi(n_)


def r_prod(a, **k):
    if isinstance(a, (list, tuple)):
        r = 1
        for x in a:
            r = binop("mul", r, x) if (is_symbolic(r) or is_symbolic(x)) else r * x
        return r
    raise Unsupported("prod")


def nanpercentile(a, q, **k):
    src = a if isinstance(a, (SArr, SSel)) else arr(a)
    if isinstance(src, SArr):
        f = src.snap()
        src = SSel(src._shape, f, lambda idx: SBool(Not_(to_real(f(idx)).nan)), src.kind)
    return percentile(src, q, **k)


def nanmedian(a, **k):
    src = a if isinstance(a, (SArr, SSel)) else arr(a)
    if isinstance(src, SArr):
        f = src.snap()
        src = SSel(src._shape, f, lambda idx: SBool(Not_(to_real(f(idx)).nan)), src.kind)
    return median(src)


def unravel_index(n, shape, order="C"):
    """position of flat index n"""
    if order != "C" or not isinstance(n, (SInt, int)):
        raise Unsupported("unravel_index")
    ds = [V.as_dim(d) for d in (shape if isinstance(shape, (tuple, list)) else [shape])]
    e = n.e if isinstance(n, SInt) else zi_(n)
    e = zi_(e)
    c = ctx()
    ks = c.loop_ks[-len(ds):]
    if len(ks) == len(ds):
        f = zi_(ks[0])
        for k, d in zip(ks[1:], ds[1:]):
            f = f * zi_(d) + k
        d0 = z3.simplify(f - e, som=True)
        if z3.is_int_value(d0) and d0.as_long() == 0:
            return tuple(SInt(zi_(k)) for k in ks)
    out = []
    for d in reversed(ds[1:]):
        out.append(SInt(e % zi_(d)))
        e = e / zi_(d)
    out.append(SInt(e))
    return tuple(reversed(out))


RULES["unravel_index"] = unravel_index


class NPShim:
    """stands for the numpy module inside the verified code"""
    fft = FFTShim()
    random = RandomShim()
    linalg = LinalgShim()
    mgrid = MGrid()
    ogrid = OGrid()

    def __getattr__(self, name):
        real = getattr(np, name, None)
        if real is None and name not in RULES and name != "newaxis":
            raise AttributeError("module 'numpy' has no attribute %r" % name)
        hooks = core.CUR.__dict__.get("np_hooks", {}) if core.CUR is not None else {}
        rule = hooks.get(name) or RULES.get(name)
        if rule is None and (not callable(real) or isinstance(real, type)):
            return real
        if name in ("float64", "int64"):
            return real
        return dispatch(name, real, rule)


np_shim = NPShim()
