"""Local moment maps."""
from types import SimpleNamespace as NS
from ..harness import *
from .. import nps, stubs
from ..values import SQuantity, SArr, SReal
import astropy.units as u

S = Suite("C12")
H = "turbustat/statistics/stat_moments/highstatmoments.py: "
np_ = nps.np_shim


def fin(v):
    return And_(Not_(v.nan), Not_(v.inf))


def moments_spec(x, w):
    """moments over the entries with finite x and w (nansum: entries with a
    missing x or w drop out)"""
    w = np_.where(np_.isfinite(x), w, np_.nan)
    W = np_.nansum(w)
    m = np_.nansum(x * w) / W
    d = x - m
    v = np_.nansum(w * d ** 2.) / W
    s = np_.sqrt(v)
    sk = np_.nansum(w * (d / s) ** 3.) / W
    ku = np_.nansum(w * (d / s) ** 4.) / W - 3
    return m, v, sk, ku


@S.contract(H + "compute_moments")
def moments(c):
    from turbustat.statistics.stat_moments.highstatmoments import compute_moments
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    x, w = fresh_arr("x", [n, m], nan=True), fresh_arr("w", [n, m], nan=True, ge=0)
    a, b = c.index("wa", 0, n.e), c.index("wb", 0, m.e)
    # some pixel has a value and a positive weight
    c.assume(And_(fin(x.get((a, b))), fin(w.get((a, b))), w.get((a, b)).v > 0))
    c.lemma("the total weight is positive", np_.nansum(np_.where(np_.isfinite(x), w, np_.nan)).v > 0)
    rv_ = lift(moments_spec(x, w)[1])
    c.lemma("spread of the values", And_(fin(rv_), rv_.v >= 0))
    if c.branch(rv_.v > 0):
        ref = moments_spec(x, w)
        got = compute_moments(x, w)
        for name, p, q in zip(("mean", "variance", "skewness", "kurtosis"), got, ref):
            c.prove(name, same(lift(p), lift(q)))
    else:
        ref = moments_spec(x, w)
        got = compute_moments(x, w)
        c.prove("mean of equal values", same(lift(got[0]), lift(ref[0])))
        c.prove("no spread", same(lift(got[1]), lift(ref[1])))
    v = lift(got[1])
    c.prove("variance is not negative", And_(fin(v), v.v >= 0))
    req_unchanged(c, "compute_moments", x, w)


@S.contract(H + "circular_region")
def circle(c):
    from turbustat.statistics.stat_moments.highstatmoments import circular_region
    r = fresh_int("r", 1)
    o = circular_region(r)
    c.prove("shape", same_shape(o, [2 * r + 1, 2 * r + 1]))
    i, j = skolem(c, [2 * r + 1, 2 * r + 1])
    y, x = i - r.e, j - r.e
    v = o.get((i, j))
    c.prove("one strictly inside the circle, missing outside",
            And_(zb(v.nan) == zb(y * y + x * x >= r.e * r.e), Or_(v.nan, v.v == 1), Not_(v.inf)))


def stat(c, weights=True, frac=False):
    from turbustat.statistics.stat_moments.highstatmoments import StatMoments
    n, m = fresh_int("n", 4), fresh_int("m", 4)
    x = fresh_arr("x", [n, m], nan=True)
    w = fresh_arr("w", [n, m], nan=True, ge=0) if weights else np_.ones_like(x)
    r = fresh_int("r", 2)
    c.assume(And_(r.e * 2 <= n.e, r.e * 2 <= m.e))
    o = StatMoments.__new__(StatMoments)
    o._data, o.weights = x, w
    if frac:
        rr = fresh_real("radius")
        c.assume(And_(rr.v <= to_real(r).v, rr.v > to_real(r).v - 1, rr.v >= 2))
        o._radius = SQuantity(rr, u.pix)
    else:
        o._radius = SQuantity(to_real(r), u.pix)
    return o, n, m, r, x, w


def window(a, i, j, r, periodic, circ):
    """the (2r+1)-square around pixel (i, j); with circ, missing outside the circle"""
    f, (n, m) = a.snap(), [zi_(d) for d in a._shape]
    R = zi_(r.e)

    def fn(idx):
        dy, dx = zi_(idx[0]) - R, zi_(idx[1]) - R
        y, x = zi_(i) + dy, zi_(j) + dx
        if periodic:
            v = f((y % n, x % m))
            out = z3.BoolVal(False)
        else:
            v = f((y, x))
            out = z3.Not(z3.And(y >= 0, y < n, x >= 0, x < m))
        if circ:
            out = z3.Or(out, dy * dy + dx * dx >= R * R)
        out = z3.simplify(out)
        if z3.is_false(out):
            return v
        return V.s_merge(out, SReal(rv(0), True), v)
    return SArr.new([2 * r + 1, 2 * r + 1], fn, "f")


class Callee:
    """compute_moments by its contract alone: some function of the two arrays"""

    def __init__(self):
        self.calls = 0

    def __call__(self, img, weights):
        self.calls += 1
        return tuple(self.value(k, img, weights) for k in range(4))

    @staticmethod
    def value(k, img, weights):
        from ..values import arrid, ArrSort
        a, b = arrid(arr(img)), arrid(arr(weights))
        v = z3.Function("MOM%d" % k, ArrSort, ArrSort, z3.RealSort())
        n = z3.Function("MOMN%d" % k, ArrSort, ArrSort, z3.BoolSort())
        return SReal(v(a, b), n(a, b))


def map_contract(name, periodic, weights, frac=False):
    @S.contract(H + "StatMoments.compute_spatial_distrib, padwithnans", name=name, budget_s=200)
    def f(c):
        o, n, m, r, x, w = stat(c, weights, frac)
        mf = fresh_real("min_frac", gt=0)
        c.assume(mf.v <= 1)
        from turbustat.statistics.stat_moments import highstatmoments as mod
        callee, real = Callee(), mod.compute_moments
        mod.compute_moments = callee
        try:
            o.compute_spatial_distrib(periodic=periodic, min_frac=mf, show_progress=False)
        finally:
            mod.compute_moments = real
        if not callee.calls:
            raise Unsupported("compute_moments is not called")
        maps = [o.mean_array, o.variance_array, o.skewness_array, o.kurtosis_array]
        for a in maps:
            c.prove("shape", same_shape(a, [n, m]))
        i, j = skolem(c, x)
        got = [a.get((i, j)) for a in maps]
        sq, sw = window(x, i, j, r, periodic, False), window(w, i, j, r, periodic, False)
        side = to_real(2 * r + 1)
        size = side * side
        fx = to_real(np_.sum(np_.isfinite(sq))) / size
        fw = to_real(np_.sum(np_.isfinite(sw))) / size
        few = Or_((fx < mf).c, (fw < mf).c)
        if c.branch(few):
            c.prove("too few finite pixels: all four maps missing", And_(*[g.nan for g in got]))
        else:
            wx, ww = window(x, i, j, r, periodic, True), window(w, i, j, r, periodic, True)
            for k, (nm, g) in enumerate(zip(("mean", "variance", "skewness", "kurtosis"), got)):
                c.prove("%s map holds that moment of the circle around the pixel" % nm, same(g, callee.value(k, wx, ww)))
        req_unchanged(c, name, x, *([w] if weights else []))


map_contract("map_periodic", True, True)
map_contract("map_padded", False, True)
map_contract("map_uniform_periodic", True, False)
map_contract("map_uniform_padded", False, False)
map_contract("map_radius_rounded_up", False, False, True)


@S.contract(H + "StatMoments.compute_spatial_distrib")
def bad_fraction(c):
    o, n, m, r, x, w = stat(c)
    mf = fresh_real("min_frac")
    c.assume(Or_(mf.v <= 0, mf.v > 1))
    k, e = outcome(o.compute_spatial_distrib, min_frac=mf, show_progress=False)
    c.prove("a fraction outside (0, 1] is refused", k == "exc" and isinstance(e, ValueError))


@S.contract(H + "StatMoments.array_moments")
def whole_image(c):
    o, n, m, r, x, w = stat(c)
    a, b = c.index("wa", 0, n.e), c.index("wb", 0, m.e)
    c.assume(And_(fin(x.get((a, b))), fin(w.get((a, b))), w.get((a, b)).v > 0))
    o.array_moments()
    for nm, g, q in zip(("mean", "variance", "skewness", "kurtosis"), (o.mean, o.variance, o.skewness, o.kurtosis),
                        moments_spec(x, w)):
        c.prove(nm, same(lift(g), lift(q)))
