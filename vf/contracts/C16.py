"""Simulated power-law fields."""
from ..harness import *
from .. import nps, stubs, core, rng
from ..values import SArr, SReal, SCplx, to_cplx, zi_, zi
from .C07 import patched, fin
import numpy as np

S = Suite("C16")
G = "turbustat/simulator/gen_field.py: "
np_ = nps.np_shim


class Inverse:
    """numpy's inverse transforms by their contract: for coefficients with the
    symmetry of a real array (the planes of the last axis that hold their own
    conjugates) the result is the real array of the requested shape that has them as
    its transform.  Records the coefficients and returns an arbitrary array."""

    def __init__(self, c):
        self.c, self.calls = c, []
        c.np_hooks = {"fft.irfft2": self, "fft.irfftn": self}
        self.__name__ = "irfft"

    def __call__(self, a, s=None, axes=None, norm=None):
        if axes is not None and tuple(axes) != tuple(range(arr(a).ndim)) or norm is not None:
            raise Unsupported("irfftn with axes or norm")
        a = arr(a)
        m = a._shape[-1]
        dims = [as_dim(d) for d in s] if s is not None else list(a._shape[:-1]) + [zi(2 * (zi_(m) - 1))]
        w = fresh_arr("W", dims)
        self.calls.append((a.copy(), dims, w))
        return w


def ez(n):
    return n.e if isinstance(n, SInt) else zi_(n)


def neg(i, n):
    return zi(z3.If(zi_(i) == 0, z3.IntVal(0), ez(n) - zi_(i)))


def conj_pair(x, y):
    x, y = to_cplx(lift(x)), to_cplx(lift(y))
    return And_(same(x.re, y.re), same(x.im, lift(-y.im)))


def freq(i, n):
    """signed frequency index of position i"""
    return z3.If(2 * zi_(i) < ez(n), zi_(i), zi_(i) - ez(n))


def amp2(v):
    v = to_cplx(lift(v))
    return v.re.v * v.re.v + v.im.v * v.im.v


def finite(v):
    v = to_cplx(lift(v))
    return And_(fin(v.re), fin(v.im))


def radius(ks, n, tilt=None):
    f = [lift(SInt(k)) / n for k in ks]
    if tilt is None:
        return np_.sqrt(sum((x ** 2 for x in f[1:]), f[0] ** 2))
    e, th = tilt
    yy, xx = f
    xp = e * (xx * np_.cos(th) - yy * np_.sin(th))
    yp = xx * np_.sin(th) + yy * np_.cos(th)
    return np_.sqrt(xp ** 2 + yp ** 2)


def where(c, n, odd, last=False, nyquist=True):
    """an arbitrary position along an axis as one of: zero, below the middle, the middle
    (even sizes), above the middle; the last axis of a half-plane has no negative part"""
    h = n.h
    if c.branch(z3.Bool("at zero %d" % next(c.counter))):
        return 0
    if not odd and nyquist and c.branch(z3.Bool("at the middle %d" % next(c.counter))):
        return h
    t = c.index("t", 1, h + 1 if odd else h)
    if last or c.branch(z3.Bool("below %d" % next(c.counter))):
        return t
    return Above(t, n)


class Above:
    above = True

    def __init__(self, t, n):
        self.t, self.i = t, zi(z3.simplify(n.e - t))


def setup(c, n, nd):
    inv = Inverse(c)
    rng.start(c)
    inv.K2 = None

    def root(x):
        """the root of a complex number (the constant by which all phases are divided):
        any complex number but zero, the same whenever the same root is taken"""
        v = x if isinstance(x, V.Scalar) else None
        if not isinstance(v, SCplx):
            return nps.RULES["sqrt"](x)
        if inv.K2 is None:
            re, im = z3.Real("const_re"), z3.Real("const_im")
            inv.K2 = re * re + im * im
            inv.root = v
            c.assume(inv.K2 != 0)
        elif not all(z3.is_true(c._under([], p.v == q.v)) for p, q in ((v.re, inv.root.re), (v.im, inv.root.im))):
            raise Unsupported("another complex root")
        return SCplx(SReal(z3.Real("const_re")), SReal(z3.Real("const_im")))
    c.np_hooks["sqrt"] = root
    return inv


def structure(c, X, n, nd, odd):
    c.prove("coefficients of a half-plane transform", same_shape(X, [n.e] * (nd - 1) + [n.h + 1]))
    i = tuple(getattr(q, "i", q) for q in (where(c, n, odd) for _ in range(nd - 1)))
    j = tuple(neg(q, n.e) for q in i)
    for name, last in (("zero", 0), ("Nyquist", n.h)):
        if name == "Nyquist" and odd:
            continue
        g = conj_pair(X.get(i + (last,)), X.get(j + (last,)))
        g = c.resolve(zb(g))
        c.prove("%s-frequency plane holds its own conjugates" % name, g if z3.is_true(c._under(c.pc, g)) else c.resolve(g, 1000))
    z = to_cplx(lift(X.get((0,) * nd)))
    c.prove("no power at zero frequency", c.resolve(zb(And_(fin(z.re), fin(z.im), z.re.v == 0, z.im.v == 0)), 1000))


def apps(e, name):
    out, seen = [], set()
    for x in core.walk(e):
        if z3.is_app(x) and x.decl().name() == name and x.get_id() not in seen:
            seen.add(x.get_id())
            out.append(x)
    return out


def amplitude(c, inv, X, n, odd, p, nd, tilt=None):
    """|X|^2 (times the squared modulus of the constant the phases are divided by) is the
    squared power of the radius, at every frequency below the highest one but zero"""
    i, k, at = [], [], []
    for t in range(nd):
        q = where(c, n, odd, last=t == nd - 1, nyquist=False)
        up = not isinstance(q, int) and getattr(q, "above", False)
        at.append(q)
        i.append(q.i if up else q)
        k.append(z3.IntVal(0) if isinstance(q, int) else z3.simplify(-q.t) if up else q)
    if all(isinstance(q, int) for q in i):
        raise Infeasible()
    r = lift(radius(k, n, tilt)).v
    hyps = [zb(And_(*[q > 0 for q in k_pos])) for k_pos in [[q.t if hasattr(q, "t") else q for q in at if not isinstance(q, int)]]]
    if tilt is not None:
        C, Sn = V.R1["COS"](tilt[1].v), V.R1["SIN"](tilt[1].v)
        c.assume(C * C + Sn * Sn == 1)
        hyps += [C * C + Sn * Sn == 1, tilt[0].v > 0]
    c.prove_nra("radius is positive", hyps + [n.e > 1], r.arg(0) > 0)
    c.lemma("root of the radius is positive", r > 0)
    R = z3.Real("radius")
    c.assume(R > 0)
    a = V.POW(R, lift(-p / 2.).v)
    x = to_cplx(lift(X.get(tuple(i))))
    ok, re, im = z3.simplify(zb(finite(x))), z3.simplify(x.re.v), z3.simplify(x.im.v)
    K2 = inv.K2 if inv.K2 is not None else z3.RealVal(1)
    ok, re, im = [c.resolve(v) for v in (ok, re, im)]
    done = set()
    for e in (ok, re, im):
        for sq in apps(e, "SQRT"):
            if sq.get_id() not in done:
                done.add(sq.get_id())
                if c.lemma("same radius", sq.arg(0) == r.arg(0)):
                    ok, re, im = [z3.simplify(z3.substitute(v, (sq, R))) for v in (ok, re, im)]
    ok, re, im = [c.resolve(v, 1000) for v in (ok, re, im)]
    c.prove("finite coefficients", ok)
    hyps = []
    a = z3.simplify(a)
    for P in apps(re + im, "POW"):
        if P.eq(a):
            continue
        for u, v in zip(P.children(), a.children()):
            if not u.eq(v):
                c.lemma("same radius and index", c.resolve(u == v))
        hyps.append(P == a)
    for C in apps(re + im, "COS"):
        Sn = V.R1["SIN"](C.arg(0))
        c.assume(C * C + Sn * Sn == 1)         # of every angle
        hyps.append(C * C + Sn * Sn == 1)
    if not z3.is_rational_value(K2):
        hyps.append(K2 != 0)
    c.prove_nra("amplitude is the power law of the radius", hyps, (re * re + im * im) * K2 == a * a)


def parity(c, odd=None):
    odd = c.branch(z3.Bool("odd size")) if odd is None else odd
    h = fresh_int("half", 1).e
    n = SInt(2 * h + 1 if odd else 2 * h)
    n.h = h
    return n, odd


def cube_field(c, odd):
    from turbustat.simulator.gen_field import make_3dfield
    n, odd = parity(c, odd)
    p, a = fresh_real("powerlaw"), fresh_real("amp", gt=0)
    inv = setup(c, n, 3)
    r = make_3dfield(n, powerlaw=p, amp=a, randomseed=fresh_int("seed", 0))
    c.prove("one inverse transform", len(inv.calls) == 1)
    X, dims, W = inv.calls[0]
    c.prove("requested shape", And_(same_shape(W, [n.e] * 3), same_shape(r, [n.e] * 3)))
    structure(c, X, n, 3, odd)


@S.contract(G + "make_3dfield", budget_s=140)
def field3_even(c):
    cube_field(c, False)


@S.contract(G + "make_3dfield", budget_s=120)
def field3_odd(c):
    cube_field(c, True)


@S.contract(G + "make_3dfield", budget_s=120)
def amplitudes3(c):
    from turbustat.simulator.gen_field import make_3dfield
    n, odd = parity(c)
    p = fresh_real("powerlaw")
    inv = setup(c, n, 3)
    make_3dfield(n, powerlaw=p, randomseed=fresh_int("seed", 0))
    X = inv.calls[0][0]
    amplitude(c, inv, X, n, odd, p, 3)


@S.contract(G + "make_3dfield", budget_s=120)
def scaled3(c):
    """the map has the asked root-mean-square amplitude, the transform is that of the map"""
    from turbustat.simulator.gen_field import make_3dfield
    n, p, a = fresh_int("imsize", 2), fresh_real("powerlaw"), fresh_real("amp", gt=0)
    inv = setup(c, n, 3)
    got = []
    back = c.branch(z3.Bool("transform"))

    def forward(x, *args, **k):
        if args or k:
            raise Unsupported("rfftn with options")
        got.append(x)
        return "transform"
    c.np_hooks["fft.rfftn"] = forward
    r = make_3dfield(n, powerlaw=p, amp=a, return_fft=back)
    X, dims, W0 = inv.calls[0]
    init = W0.buf.init
    W = SArr.new(dims, init, "f")
    if back:
        c.prove("transform of the map", len(got) == 1 and r == "transform")
        r = got[0]
    i = skolem(c, dims)
    ms = np_.sqrt(np_.sum(W ** 2)) / np_.sqrt(to_real(lift(n)) ** 3)
    c.prove("scaled to the asked amplitude", z3.Implies(lift(ms).v != 0, zb(same(r.get(i), lift(W.get(i)) * a / ms))))


def options(c, angle=True):
    kw, tilt = {}, None
    if c.branch(z3.Bool("elliptical")):
        e, th = fresh_real("ellip", gt=0), fresh_real("theta")
        c.assume(e.v < 1)
        kw.update(ellip=e, theta=th)
        tilt = (e, th)
    elif angle and c.branch(z3.Bool("circle with an angle")):
        kw.update(theta=fresh_real("theta"))
    return kw, tilt


@S.contract(G + "make_extended", budget_s=120)
def field2(c):
    from turbustat.simulator.gen_field import make_extended
    n, odd = parity(c)
    p = fresh_real("powerlaw")
    kw, tilt = options(c)
    inv = setup(c, n, 2)
    r = make_extended(n, powerlaw=p, randomseed=fresh_int("seed", 0), **kw)
    c.prove("one inverse transform", len(inv.calls) == 1)
    X, dims, W = inv.calls[0]
    c.prove("requested shape", And_(same_shape(W, [n.e] * 2), same_shape(r, [n.e] * 2)))
    i = skolem(c, [n.e] * 2)
    c.prove("the map is the inverse transform", same(r.get(i), W.buf.init(i)))
    structure(c, X, n, 2, odd)


class Marker:
    def __init__(self, a):
        self.a = a


@S.contract(G + "make_extended", budget_s=120)
def transform2(c):
    """the transforms that are returned are the one the map is made of"""
    from turbustat.simulator.gen_field import make_extended
    n, odd = parity(c)
    p = fresh_real("powerlaw")
    kw, tilt = options(c, angle=False)
    inv = setup(c, n, 2)
    seed = fresh_int("seed", 0)
    kw.update(powerlaw=p, randomseed=seed)
    make_extended(n, **kw)
    X = inv.calls[0][0]
    H = make_extended(n, return_fft=True, full_fft=False, **kw)
    shifted = []

    def shift(a, axes=None):
        if axes is not None and set(axes) != {0, 1}:
            raise Unsupported("fftshift of some axes")
        shifted.append(a)
        return Marker(a)
    c.np_hooks["fft.fftshift"] = shift
    F = make_extended(n, return_fft=True, **kw)
    c.prove("zero frequency in the centre", isinstance(F, Marker) and len(shifted) == 1)
    F = arr(F.a)
    c.prove("shape of the half-plane transform", same_shape(H, [n.e, zi(n.e / 2 + 1)]))
    c.prove("shape of the full-plane transform", same_shape(F, [n.e, n.e]))
    i, j = [getattr(q, "i", q) for q in (where(c, n, odd), where(c, n, odd, last=True))]
    look = lambda g: c.resolve(zb(g))
    c.prove("half-plane transform is that of the map", look(same(H.get((i, j)), X.get((i, j)))))
    # (before the shift of the zero frequency to the centre)
    c.prove("full-plane transform continues it", look(same(F.get((i, j)), X.get((i, j)))))
    # the columns that hold their own conjugates are those of field2's obligations
    if not isinstance(j, int) and not j.eq(n.h):
        c.prove("full-plane transform is that of a real map",
                look(conj_pair(X.get((i, j)), F.get((neg(i, n.e), neg(j, n.e))))))


@S.contract(G + "make_extended")
def ellipticity(c):
    from turbustat.simulator.gen_field import make_extended
    n, e = fresh_int("imsize", 2), fresh_real("ellip")
    bad = c.branch(z3.Or(e.v <= 0, e.v > 1))
    setup(c, n, 2)
    ok, v = outcome(lambda: make_extended(n, ellip=e, theta=fresh_real("theta")))
    if bad:
        c.prove("an ellipticity outside (0, 1] is refused", ok == "exc" and isinstance(v, ValueError))
    else:
        c.prove("an ellipticity in (0, 1] is accepted", ok == "ok")


@S.contract(G + "make_extended", budget_s=150)
def amplitudes2(c):
    from turbustat.simulator.gen_field import make_extended
    n, odd = parity(c)
    p = fresh_real("powerlaw")
    kw, tilt = options(c)
    inv = setup(c, n, 2)
    make_extended(n, powerlaw=p, randomseed=fresh_int("seed", 0), **kw)
    X = inv.calls[0][0]
    amplitude(c, inv, X, n, odd, p, 2, tilt)
