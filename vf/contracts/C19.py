"""Errors of moment maps."""
from ..harness import *
from .. import nps, stubs, core
from ..values import SQuantity, SArr, SReal, SBool, zi_
from .C07 import patched, fin
import astropy.units as u
import numpy as np

S = Suite("C19")


def tried(f, *a, **k):
    r, e = outcome(f, *a, **k)
    return r == "ok", e

M = "turbustat/moments/_moment_errs.py: "
MM = "turbustat/moments/make_moments.py: "
np_ = nps.np_shim
K, V_ = u.K, u.m / u.s


def mod():
    from turbustat.moments import _moment_errs
    return _moment_errs


class Mask:
    def __init__(self, a):
        self.a = a

    def include(self, data=None, wcs=None, view=()):
        return self.a[view] if view != () else self.a.copy()


class Filled:
    def __init__(self, a, un):
        self.a, self.un = a, un

    def __getitem__(self, k):
        return SQuantity(self.a[k], self.un)


def cubes(c):
    """a cube by the interface of spectral_cube that is used: values (missing where
    masked), mask, channel centres relative to the first channel, channel width"""
    m = mod()
    dims = [fresh_int("nz", 1), fresh_int("ny", 1), fresh_int("nx", 1)]
    x = fresh_arr("x", dims)
    ok = fresh_arr("ok", dims, kind="b")
    vel = fresh_arr("vel", [dims[0]])
    dv = fresh_real("dv", gt=0)
    ys = [fresh_real("dy", gt=0), fresh_real("dx", gt=0)]

    class Cube(m.SpectralCube):
        def __new__(cls):
            return object.__new__(cls)

        def __init__(self):
            pass
        shape = property(lambda self: tuple(dims))
        unit = property(lambda self: K)
        _mask = property(lambda self: Mask(ok))
        filled_data = property(lambda self: Filled(np_.where(ok, x, np_.nan), K))
        spectral_axis = property(lambda self: SQuantity(vel, V_))

        def _pix_size_slice(self, axis):
            return [dv] [axis] if axis == 0 else ys[axis - 1]

        def _pix_cen(self):
            v0 = vel.get((0,))
            f = vel.snap()
            return [SArr.new(dims, lambda i: f((i[0],)) - v0, "f")]
    o = Cube()
    for nm in ("_data", "_wcs"):
        if not isinstance(getattr(type(o), nm, None), property):
            setattr(o, nm, None)
    return o, dims, x, ok, vel, dv


def noise(c, kind, dims):
    """a single level or a cube of levels"""
    m = mod()
    if kind == "level":
        s = fresh_real("noise", ge=0) if False else fresh_real("noise")
        c.assume(s.v >= 0)
        return SQuantity(s, K), lambda i: s
    a = fresh_arr("noise", dims, nan=True, ge=0)

    class Cube(m.SpectralCube):
        def __new__(cls):
            return object.__new__(cls)

        def __init__(self):
            pass
        shape = property(lambda self: tuple(dims))
        unit = property(lambda self: K)
        filled_data = property(lambda self: Filled(a, K))
    n = np_.nan_to_num(a)
    return Cube(), lambda i: n.get(i)


def value(q):
    return arr(q.value if isinstance(q, SQuantity) else q)


def unit_of(q):
    return q.unit if isinstance(q, SQuantity) else u.dimensionless_unscaled


def plane(dims, f):
    """sum over the channels of f(k, i, j) as a map"""
    return np_.sum(SArr.new(dims, f, "f"), axis=0)


def zeroth(kind):
    @S.contract(M + "_slice0, _cube0", name="zeroth_" + kind)
    def f(c):
        m = mod()
        o, dims, x, ok, vel, dv = cubes(c)
        s, lev = noise(c, kind, dims)
        i, j = skolem(c, dims[1:])
        okf = ok.snap()
        tot = plane(dims, lambda r: V.s_merge(zb(to_bool(okf(r)).c), lev(r) * lev(r), lift(0.)))
        want = lift(np_.sqrt(tot) .get((i, j)) * dv)
        for how in ("slice", "cube"):
            r = getattr(m, "_%s0" % how)(o, 0, s)
            v = value(r)
            g = to_real(lift(v.get((i, j))))
            some = to_bool(np_.any(ok, axis=0).get((i, j))).c
            c.prove("%s: the unit is the one of the cube" % how, unit_of(r) == K)
            c.prove("%s: one value per position" % how, same_shape(v, dims[1:]))
            if how == "slice":
                c.prove("slice: missing where there are no data", Or_(some, g.nan))
            c.prove("%s: width times the quadrature sum over the valid channels" % how, Or_(Not_(some), same(g, want)))
            c.prove("%s: never negative" % how, Or_(g.nan, g.v >= 0))
    return f


zeroth("level")
zeroth("cube")


def setup(c, kind):
    o, dims, x, ok, vel, dv = cubes(c)
    s, lev = noise(c, kind, dims)
    m0 = fresh_arr("m0", dims[1:], nan=True)
    m1 = fresh_arr("m1", dims[1:], nan=True)
    i, j = skolem(c, dims[1:])
    return o, dims, x, ok, vel, dv, s, lev, m0, m1, i, j


def first(kind):
    @S.contract(M + "_slice1, _cube1", name="first_" + kind)
    def f(c):
        m = mod()
        o, dims, x, ok, vel, dv, s, lev, m0, m1, i, j = setup(c, kind)
        okf, vf, v0, f0, f1 = ok.snap(), vel.snap(), vel.get((0,)), m0.snap(), m1.snap()

        def part(r):
            q = r[1:]
            slope = (lift(vf((r[0],))) - v0) / (lift(f0(q)) / dv) - lift(f1(q)) / (lift(f0(q)) / dv)
            t = slope * lev(r)
            return V.s_merge(zb(to_bool(okf(r)).c), lift(1.), lift(0.)) * (t * t)
        want = lift(np_.sqrt(plane(dims, part)).get((i, j)))
        good = And_(Not_(lift(f0((i, j))).nan), Not_(lift(f1((i, j))).nan), lift(f0((i, j))).v != 0)
        for how in ("slice", "cube"):
            r = getattr(m, "_%s1" % how)(o, 0, s, SQuantity(m0, K * V_), SQuantity(m1, V_))
            v = value(r)
            g = to_real(lift(v.get((i, j))))
            c.prove("%s: a velocity" % how, unit_of(r) == V_)
            c.prove("%s: one value per position" % how, same_shape(v, dims[1:]))
            c.prove("%s: quadrature sum of slope times noise over the valid channels" % how, Or_(Not_(good), same(g, want)))
            c.prove("%s: never negative" % how, Or_(Not_(good), g.v >= 0))
    return f


first("level")
first("cube")


def second(kind):
    @S.contract(M + "_slice2, _cube2", name="second_" + kind)
    def f(c):
        m = mod()
        o, dims, x, ok, vel, dv, s, lev, m0, m1, i, j = setup(c, kind)
        m2 = fresh_arr("m2", dims[1:], nan=True)
        e1 = fresh_arr("e1", dims[1:], nan=True)
        okf, vf, v0, f0, f1, f2, fe, fx = ok.snap(), vel.snap(), vel.get((0,)), m0.snap(), m1.snap(), m2.snap(), e1.snap(), x.snap()

        def off(r):
            return (lift(vf((r[0],))) - v0) - lift(f1(r[1:]))

        def part(r):
            q = r[1:]
            tot = lift(f0(q)) / dv
            t = (off(r) * off(r) / tot - lift(f2(q)) / tot) * lev(r)
            return V.s_merge(zb(to_bool(okf(r)).c), lift(1.), lift(0.)) * (t * t)

        def skew(r):
            return V.s_merge(zb(to_bool(okf(r)).c), lift(fx(r)), lift(0.)) * off(r)
        sk = plane(dims, skew).snap()
        own = plane(dims, part).snap()

        def full(q):
            t = lift(fe(q)) * lift(sk(q)) / (lift(f0(q)) / dv)
            return lift(own(q)) + t * t * 4
        want = lift(np_.sqrt(SArr.new(dims[1:], full, "f")).get((i, j)))
        good = And_(*[Not_(lift(g((i, j))).nan) for g in (f0, f1, f2, fe)] + [lift(f0((i, j))).v != 0])
        for how in ("slice", "cube"):
            r = getattr(m, "_%s2" % how)(o, 0, s, SQuantity(m0, K * V_), SQuantity(m1, V_), SQuantity(m2, V_ ** 2), SQuantity(e1, V_))
            v = value(r)
            g = to_real(lift(v.get((i, j))))
            c.prove("%s: a squared velocity" % how, unit_of(r) == V_ ** 2)
            c.prove("%s: one value per position" % how, same_shape(v, dims[1:]))
            c.prove("%s: propagated noise of the valid channels and of the centroid" % how, Or_(Not_(good), same(g, want)))
            c.prove("%s: never negative" % how, Or_(Not_(good), g.v >= 0))
    return f


second("level")
second("cube")


def top(name, order):
    """the public function, with the slice- or cube-wise routine replaced by its contract"""
    @S.contract(M + name, name=name)
    def f(c):
        m = mod()
        o, dims, x, ok, vel, dv = cubes(c)
        s, lev = noise(c, "level", dims)
        cls = type(o)
        mom = [fresh_arr("mom%d" % n, dims[1:], nan=True) for n in range(3)]
        units = [K * V_, V_, V_ ** 2]
        asked = []

        def moment(n):
            def g(self, how="auto", axis=0):
                asked.append((n, axis))
                return SQuantity(mom[n], units[n])
            return g
        for n in range(3):
            setattr(cls, "moment%d" % n, moment(n))
        cls.meta = {}
        cls._nowcs_header = None
        got = {}
        res = {}

        def part(k, how):
            def g(cube, axis, scale, *a, **kw):
                nm = ("moment0", "moment1", "moment2", "moment1_err")
                a = dict(zip(nm, a))
                a.update(kw)
                got[(k, how)] = (cube is o, axis, scale is s, a)
                un = [K, V_, V_ ** 2][k]
                r = fresh_arr("err%d" % k, dims[1:], nan=True)
                res[(k, how)] = r
                return SQuantity(r, un)
            return g
        stand = {"_%s%d" % (h, k): part(k, h) for k in range(3) for h in ("slice", "cube")}
        i, j = skolem(c, dims[1:])
        v0 = vel.get((0,))

        def moments_ok(a, n):
            t = []
            for k in range(n):
                q = a["moment%d" % k]
                g = to_real(lift(value(q).get((i, j))))
                w = to_real(lift(mom[k].get((i, j))))
                if k == 1:
                    w = to_real(w - v0)
                t.append(And_(unit_of(q) == units[k], same(g, w)))
            return And_(*t)
        with patched(m, drop_axis=lambda w, ax: w, Projection=lambda d, copy=True, **k: d,
                     iterator_strategy=lambda cube, axis=None: "slice", **stand):
            for how in ("slice", "cube", "auto"):
                for given in (False, True):
                    got.clear()
                    kw = {}
                    if given:
                        mine = [SQuantity(mm.copy(), un) for mm, un in zip(mom, units)]
                        kw = {"moment%d" % n: mine[n] for n in range(order + 1 if order == 2 else order * 2)}
                    tag = "%s, moments %s: " % (how, "given" if given else "computed")
                    r = getattr(m, name)(o, s, how=how, **kw)
                    use = "slice" if how == "auto" else how
                    k = 2 if order == 2 else order
                    cube_ok, ax, sc, a = got[(k, use)]
                    c.prove(tag + "this cube, its spectral axis and this noise", And_(cube_ok, ax == 0, sc))
                    if order:
                        c.prove(tag + "moments relative to the first channel", moments_ok(a, order + 1))
                    g = to_real(lift(value(r).get((i, j))))
                    w = to_real(lift(res[(k, use)].get((i, j))))
                    if name.startswith("linewidth"):
                        m2 = to_real(lift(np_.sqrt(mom[2]).get((i, j))))
                        w = to_real(w / (m2 * 2))
                        if "fwhm" in name:
                            w = to_real(lift(2. * np.sqrt(2. * np.log(2.))) * w)
                    un = {"moment0_error": K * V_, "moment1_error": V_, "moment2_error": V_ ** 2}.get(name, V_)
                    c.prove(tag + "the propagated error with its unit", And_(unit_of(r) == un, same(g, w)))
                    if given and order:
                        c.prove(tag + "the given moments are unchanged", And_(*[
                            same(lift(value(q).get((i, j))), lift(mm.get((i, j)))) for q, mm in zip(mine, mom)]))
            ok_, e = tried(getattr(m, name), o, s, how="ray")
            c.prove("an unknown method is refused", (not ok_) and isinstance(e, ValueError))
    return f


for nm_, k_ in (("moment0_error", 0), ("moment1_error", 1), ("moment2_error", 2), ("linewidth_sigma_err", 2),
                ("linewidth_fwhm_err", 2)):
    top(nm_, k_)


@S.contract(M + "_slice0 .. _cube2", name="other_shape")
def f(c):
    m = mod()
    o, dims, x, ok, vel, dv = cubes(c)
    d2 = [fresh_int("oz", 1), fresh_int("oy", 1), fresh_int("ox", 1)]
    c.assume(Or_(*[zi_(a) != zi_(b) for a, b in zip(dims, d2)]))
    s, lev = noise(c, "cube", d2)
    mm = [SQuantity(fresh_arr("mom%d" % n, dims[1:]), un) for n, un in enumerate((K * V_, V_, V_ ** 2, V_))]
    for k, args in ((0, []), (1, mm[:2]), (2, mm)):
        for how in ("slice", "cube"):
            good, e = tried(getattr(m, "_%s%d" % (how, k)), o, 0, s, *args)
            c.prove("noise of another shape is refused (%s, order %d)" % (how, k), (not good) and isinstance(e, IndexError))


@S.contract(MM + "Moments.scale", name="noise_level")
def f(c):
    from turbustat.moments import make_moments as mk
    o, dims, x, ok, vel, dv = cubes(c)
    M_ = mk.Moments.__new__(mk.Moments)
    M_.cube = o
    M_.scale = None
    c.prove("no noise level is allowed", M_.scale is None)
    s = fresh_real("s", nan=False)
    for un in (K, u.mK):
        q = SQuantity(s, un)
        good, e = tried(setattr, M_, "scale", q)
        if good:
            c.prove("accepted in %s only when not negative" % un, And_(M_.scale is q, s.v >= 0))
        else:
            c.prove("refused in %s only when negative" % un, And_(isinstance(e, ValueError), s.v < 0))
    for un in (u.m, u.Jy, u.dimensionless_unscaled):
        good, e = tried(setattr, M_, "scale", SQuantity(s, un))
        c.prove("refused in %s" % (un or "no unit"), (not good) and isinstance(e, u.UnitsError))
    good, e = tried(setattr, M_, "scale", s)
    c.prove("a bare number is refused", (not good) and isinstance(e, TypeError))


@S.contract(MM + "Moments.make_moment_errors", name="errors_of_an_object")
def f(c):
    from turbustat.moments import make_moments as mk
    o, dims, x, ok, vel, dv = cubes(c)
    s, t = fresh_real("s"), fresh_real("t")
    c.assume(And_(s.v >= 0, t.v >= 0))
    calls = []

    def rec(nm):
        def g(cube, scale, **k):
            calls.append((nm, cube, scale, k))
            return "%s error %d" % (nm, len(calls))
        return g
    with patched(mk, moment0_error=rec("zeroth"), moment1_error=rec("first"), linewidth_sigma_err=rec("width")):
        for tag, own, given, want in (("of the object", s, None, s), ("given", None, t, t)):
            del calls[:]
            M_ = mk.Moments.__new__(mk.Moments)
            M_.cube, M_.moment_how = o, "slice"
            M_.scale = None if own is None else SQuantity(own, K)
            good, e = tried(M_.make_moment_errors)
            c.prove("%s: moments are needed first" % tag, (not good) and isinstance(e, ValueError))
            M_._moment0, M_._moment1, M_._linewidth = "m0", "m1", "lw"
            M_.make_moment_errors(scale=None if given is None else SQuantity(given, K))
            c.prove("%s: every error uses the noise level" % tag, And_(len(calls) == 3, *[
                And_(q[1] is o, unit_of(q[2]) == K, same(q[2].value, want), q[3]["how"] == "slice",
                     q[3].get("moment0", "m0") == "m0", q[3].get("moment1", "m1") == "m1") for q in calls]))
            c.prove("%s: the errors are kept in their place" % tag, And_(*[
                str(v_).startswith(k_) for k_, v_ in (("zeroth", M_.moment0_err), ("first", M_.moment1_err), ("width", M_.linewidth_err))]))


@S.contract("lemma over the contracts of _slice1 / _cube1", name="propagation")
def f(c):
    """(v_k - m1) / S is the derivative of sum(v T) / sum(T) with respect to T_k: the
    difference quotient is (v_k - m1) / (S + e)"""
    A, T, v, e = fresh_real("A"), fresh_real("S"), fresh_real("v"), fresh_real("e")
    c.assume(And_(T.v != 0, T.v + e.v != 0, e.v != 0))
    m1 = A.v / T.v
    c.prove("first moment", (A.v + e.v * v.v) / (T.v + e.v) - m1 == e.v * (v.v - m1) / (T.v + e.v))
    B = fresh_real("B")       # sum of (v - m1)^2 T about a fixed centre m1
    m2 = B.v / T.v
    d = v.v - m1
    c.prove("second moment about a fixed centre", (B.v + e.v * d * d) / (T.v + e.v) - m2 == e.v * (d * d - m2) / (T.v + e.v))
