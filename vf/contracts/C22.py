"""Comparisons on a common angular scale."""
from types import SimpleNamespace as NS
from ..harness import *
from .. import nps, stubs
from ..values import SQuantity
import astropy.units as u
import astropy.wcs as awcs
import numpy as np

S = Suite("C22")
P = "turbustat/statistics/"
np_ = nps.np_shim


@S.contract(P + "stats_utils.py: common_scale")
def scale_square(c):
    from turbustat.statistics.stats_utils import common_scale
    h1, h2 = stubs.header("a"), stubs.header("b", spec=True)
    w1, w2 = stubs.SWCS(h1), stubs.SWCS(h2)
    s = lift(common_scale(w1, w2))
    t = lift(common_scale(w2, w1))
    c.prove("ratio of the pixel sizes", same(s, h2.pix_scale_x / h1.pix_scale_x))
    c.prove("reciprocal in the other order", And_(Not_(s.nan), s.v * t.v == 1, s.v > 0))
    c.prove("larger than one exactly when the second map is coarser", (s.v > 1) == (h2.pix_scale_x.v > h1.pix_scale_x.v))


@S.contract(P + "stats_utils.py: common_scale")
def scale_refused(c):
    from turbustat.statistics.stats_utils import common_scale
    h1, h2 = stubs.header("a", square=False), stubs.header("b", square=False)
    k, e = outcome(common_scale, stubs.SWCS(h1), stubs.SWCS(h2))

    def odd(h):
        d = h.pix_scale_x.v - h.pix_scale_y.v
        return Or_(d > z3.RealVal("1/100000"), d < z3.RealVal("-1/100000"))
    dist = Or_(h1.distorted.c, h2.distorted.c)
    if k == "ok":
        c.prove("undistorted square pixels only", Not_(Or_(dist, odd(h1), odd(h2))))
        r = lift(e)
        c.prove("ratio of the pixel sizes", same(r, h2.pix_scale_x / h1.pix_scale_x))
    elif isinstance(e, awcs.WcsError):
        c.prove("distorted maps are refused", dist)
    else:
        c.prove("non-square pixels are refused", And_(isinstance(e, ValueError), Or_(odd(h1), odd(h2))))


class Rec:
    """stand-in for the statistic under comparison: records the lags it is given"""
    made = ()

    def __init__(self, data, header=None, weights=None, **kw):
        self.data, self.header = data
        self.weights, self.kw, self.runs, self.set = weights, kw, [], []
        self._wcs = stubs.SWCS(self.header)
        self.size = 1
        self._skewness_array = self._kurtosis_array = self._mean_array = self._variance_array = None
        type(self).made = type(self).made + (self,)

    def run(self, **k):
        self.runs.append(("run", k))

    def compute_surface(self, *a, **k):
        self.runs.append(("surface", k))

    def compute_spectrum(self, *a, **k):
        self.runs.append(("spectrum", k))

    def compute_spatial_distrib(self, *a, **k):
        self.runs.append(("maps", k))

    def compute_spatial_distrib_run(self, *a, **k):
        self.runs.append(("maps", k))


class patched:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def __enter__(self):
        self.old = getattr(self.mod, self.name)
        R = type("Rec", (Rec,), {"made": ()})
        setattr(self.mod, self.name, R)
        return R

    def __exit__(self, *a):
        setattr(self.mod, self.name, self.old)
        return False


def two(c, cube=False):
    h1, h2 = stubs.header("a", spec=cube), stubs.header("b", spec=cube)
    d = []
    for k in "xy":
        dims = [fresh_int(k + str(i), 8) for i in range(3 if cube else 2)]
        d.append(fresh_arr(k, dims, nan=True))
    return (d[0], h1), (d[1], h2)


def common(c, what, q1, q2, q, s1, s2, nl=None):
    """q1, q2: used for the maps; q: asked for, in pixels"""
    c.prove(what + ": in pixels", q1.unit == u.pix and q2.unit == u.pix)
    if nl is None:
        a, b, z = lift(q1.value), lift(q2.value), lift(q.value)
    else:
        c.prove(what + ": number", And_(same_shape(q1.value, [nl]), same_shape(q2.value, [nl])))
        i = c.index("i", 0, V.zi_(nl.e) if hasattr(nl, "e") else nl)
        a, b, z = q1.value.get((i,)), q2.value.get((i,)), q.value.get((i,))
    a, b, z = to_real(a), to_real(b), to_real(z)
    x, y = s1.v, s2.v
    ok = And_(Not_(a.nan), Not_(b.nan))
    c.prove(what + ": same angle on both maps", And_(ok, a.v * x == b.v * y))
    c.prove(what + ": taken from the coarser map", And_(ok, z3.Implies(x > y, a.v == z.v), z3.Implies(y >= x, b.v == z.v)))
    c.prove(what + ": equal pixels leave them alone", And_(ok, z3.Implies(x == y, z3.And(a.v == z.v, b.v == z.v))))


def angular(c, what, q1, q2, q, nl=None):
    if nl is None:
        c.prove(what, And_(q1.unit == q.unit, q2.unit == q.unit, same(lift(q1.value), lift(q.value)), same(lift(q2.value), lift(q.value))))
        return
    c.prove(what + ": unit", q1.unit == q.unit and q2.unit == q.unit)
    i = c.index("i", 0, nl.e)
    z = q.value.get((i,))
    c.prove(what, And_(same_shape(q1.value, [nl]), same_shape(q2.value, [nl]), same(q1.value.get((i,)), z), same(q2.value.get((i,)), z)))


def delvar(un):
    @S.contract(P + "delta_variance/delta_variance.py: DeltaVariance_Distance.__init__", name="delvar_" + un)
    def f(c):
        from turbustat.statistics.delta_variance import delta_variance as mod
        m1, m2 = two(c)
        nl = fresh_int("nlags", 1)
        v = fresh_arr("lag", [nl], gt=0)
        lags = v if un == "bare" else SQuantity(v, {"pix": u.pix, "deg": u.deg, "arcmin": u.arcmin}[un])
        w1, w2 = object(), object()
        with patched(mod, "DeltaVariance") as R:
            mod.DeltaVariance_Distance(m1, m2, lags=lags, weights1=np_.ones_like(m1[0]), weights2=np_.ones_like(m2[0]))
            if len(R.made) != 2:
                raise Unsupported("statistics built in another way")
            d1, d2 = R.made
            c.prove("first and second map in order", d1.header is m1[1] and d2.header is m2[1])
            c.prove("both are run once with their lags", len(d1.runs) == 1 and len(d2.runs) == 1)
            q1, q2 = d1.kw.get("lags"), d2.kw.get("lags")
            if un in ("pix", "bare"):
                common(c, "lags", q1, q2, SQuantity(v, u.pix), m1[1].pix_scale_x, m2[1].pix_scale_x, nl)
            else:
                angular(c, "angular lags used as given", q1, q2, lags, nl)
        req_unchanged(c, "lags", v)


for un in ("pix", "bare", "deg", "arcmin"):
    delvar(un)


def delvar_pre(which):
    @S.contract(P + "delta_variance/delta_variance.py: DeltaVariance_Distance.__init__", name="delvar_precomputed_%d" % which)
    def f(c):
        """one or both given as statistics already run with other lags: they are run again with the common lags"""
        from turbustat.statistics.delta_variance import delta_variance as mod
        m1, m2 = two(c)
        nl = fresh_int("nlags", 1)
        v = fresh_arr("lag", [nl], gt=0)
        old = SQuantity(fresh_arr("old", [nl], gt=0), u.pix)
        with patched(mod, "DeltaVariance") as R:
            a1, a2 = m1, m2
            if which in (1, 3):
                a1 = R(m1)
                a1.lags, a1._slope = old, 1.
            if which in (2, 3):
                a2 = R(m2)
                a2.lags, a2._slope = old, 1.
            o = mod.DeltaVariance_Distance(a1, a2, lags=SQuantity(v, u.pix))
            i = c.index("i", 0, nl.e)
            q1 = a1.lags if which in (1, 3) else o.delvar1.kw.get("lags")
            q2 = a2.lags if which in (2, 3) else o.delvar2.kw.get("lags")
            common(c, "lags", q1, q2, SQuantity(v, u.pix), m1[1].pix_scale_x, m2[1].pix_scale_x, nl)
            for d, q in ((o.delvar1, q1), (o.delvar2, q2)):
                if q is old:
                    c.prove("not run again only with equal lags", len(d.runs) == 0)
                else:
                    c.prove("run again with the common lags", len(d.runs) >= 1)


for w in (1, 2, 3):
    delvar_pre(w)


@S.contract(P + "delta_variance/delta_variance.py: DeltaVariance_Distance.__init__")
def delvar_own(c):
    """without common lags each map keeps its own"""
    from turbustat.statistics.delta_variance import delta_variance as mod
    m1, m2 = two(c)
    n1, n2 = fresh_int("nl1", 1), fresh_int("nl2", 1)
    l1, l2 = SQuantity(fresh_arr("l1", [n1], gt=0), u.pix), SQuantity(fresh_arr("l2", [n2], gt=0), u.deg)
    with patched(mod, "DeltaVariance") as R:
        o = mod.DeltaVariance_Distance(m1, m2, lags=l1, lags2=l2, use_common_lags=False)
        q1, q2 = o.delvar1.kw.get("lags"), o.delvar2.kw.get("lags")
        i, j = c.index("i", 0, n1.e), c.index("j", 0, n2.e)
        c.prove("lags of the first map", And_(q1.unit == l1.unit, same(q1.value.get((i,)), l1.value.get((i,)))))
        c.prove("lags of the second map", And_(q2.unit == l2.unit, same(q2.value.get((j,)), l2.value.get((j,)))))


@S.contract(P + "scf/scf.py: SCF_Distance.__init__")
def scf(c):
    from turbustat.statistics.scf import scf as mod
    m1, m2 = two(c, True)
    for size in (3, 4, 11):
        with patched(mod, "SCF") as R:
            mod.SCF_Distance(m1, m2, size=size, show_progress=False)
            if len(R.made) != 2:
                raise Unsupported("statistics built in another way")
            d1, d2 = R.made
            odd = size if size % 2 else size - 1
            ref = SQuantity(V.arr(np.arange(odd) - odd // 2), u.pix)
            common(c, "lags (size %d)" % size, qarr(d1.kw.get("roll_lags")), qarr(d2.kw.get("roll_lags")), ref, m1[1].pix_scale_x, m2[1].pix_scale_x,
                   odd)
            c.prove("both are computed", [x[0] for x in d1.runs] == ["surface", "spectrum"] == [x[0] for x in d2.runs])


def qarr(q):
    return SQuantity(V.arr(q.value), q.unit) if not isinstance(q, SQuantity) else q


def moments(un):
    @S.contract(P + "stat_moments/highstatmoments.py: StatMoments_Distance.__init__", name="moments_" + un)
    def f(c):
        from turbustat.statistics.stat_moments import highstatmoments as mod
        m1, m2 = two(c)
        q = SQuantity(fresh_real("radius", gt=0), {"pix": u.pix, "deg": u.deg, "arcmin": u.arcmin}[un])
        with patched(mod, "StatMoments") as R:
            mod.StatMoments_Distance(m1, m2, radius=q, nbins=10)
            if len(R.made) != 2:
                raise Unsupported("statistics built in another way")
            d1, d2 = R.made
            c.prove("first and second map in order", d1.header is m1[1] and d2.header is m2[1])
            q1, q2 = d1.kw.get("radius"), d2.kw.get("radius")
            if un == "pix":
                common(c, "radius", q1, q2, q, m1[1].pix_scale_x, m2[1].pix_scale_x)
            else:
                angular(c, "angular radius used as given", q1, q2, q)
            c.prove("both are computed", len(d1.runs) == 1 and len(d2.runs) == 1)


for un in ("pix", "deg", "arcmin"):
    moments(un)


def scf_pre(which):
    @S.contract(P + "scf/scf.py: SCF_Distance.__init__", name="scf_precomputed_%d" % which)
    def f(c):
        """pre-computed surfaces are recomputed at the common lags"""
        from turbustat.statistics.scf import scf as mod
        m1, m2 = two(c, True)
        c.assume(m1[1].pix_scale_x.v != m2[1].pix_scale_x.v)
        size = 5
        ref = SQuantity(V.arr(np.arange(size) - size // 2), u.pix)
        old = np.arange(-3, 4) * u.pix
        with patched(mod, "SCF") as R:
            R._to_pixel = lambda self, q: q
            a1, a2 = m1, m2
            if which in (1, 3):
                a1 = R(m1)
                a1.roll_lags, a1._scf_spectrum = old, 1.
            if which in (2, 3):
                a2 = R(m2)
                a2.roll_lags, a2._scf_spectrum = old, 1.
            o = mod.SCF_Distance(a1, a2, size=size, show_progress=False)
            q1 = a1.roll_lags if which in (1, 3) else o.scf1.kw.get("roll_lags")
            q2 = a2.roll_lags if which in (2, 3) else o.scf2.kw.get("roll_lags")
            common(c, "lags", qarr(q1), qarr(q2), ref, m1[1].pix_scale_x, m2[1].pix_scale_x, size)
            c.prove("both are computed", [x[0] for x in o.scf1.runs] == ["surface", "spectrum"] == [x[0] for x in o.scf2.runs])


for w in (1, 2, 3):
    scf_pre(w)
