"""Lags, scales, radii: what is accepted and what is refused."""
from types import SimpleNamespace as NS
from ..harness import *
from .. import nps, stubs
from ..values import SQuantity
import astropy.units as u
import numpy as np

S = Suite("C23")
P = "turbustat/statistics/"
np_ = nps.np_shim
UNITS = {"pix": u.pix, "deg": u.deg, "arcmin": u.arcmin, "pc": u.pc}


def classes():
    from turbustat.statistics.delta_variance.delta_variance import DeltaVariance
    from turbustat.statistics.tsallis.tsallis import Tsallis
    from turbustat.statistics.wavelets.wavelet_transform import Wavelet
    return {"DeltaVariance": (DeltaVariance, "lags"), "Tsallis": (Tsallis, "lags"), "Wavelet": (Wavelet, "scales")}


WHERE = {"DeltaVariance": "delta_variance/delta_variance.py: DeltaVariance.lags", "Tsallis": "tsallis/tsallis.py: Tsallis.lags",
         "Wavelet": "wavelets/wavelet_transform.py: Wavelet.scales"}


def obj(cls, c, un, nd=2):
    o = cls.__new__(cls)
    dims = [fresh_int("n%d" % i, 2) for i in range(nd)]
    o._data = fresh_arr("x", dims, nan=True)
    o._header = stubs.header(spec=nd == 3)
    if un == "pc":
        o.distance = fresh_real("dist", gt=0) * u.pc
    return o, dims


def bad_lags(o, dims, q):
    """some lag is below one pixel or, rounded down, above half of the map"""
    pix = o._to_pixel(q).value
    half = V.s_min(dims[0], dims[1]) / 2.
    return Or_(to_bool(np_.any(pix < 1)).c, to_bool(np_.any(np_.floor(pix) > half)).c)


def setter(cn, un):
    @S.contract(P + WHERE[cn], name="%s_%s" % (cn, un))
    def f(c):
        cls, at = classes()[cn]
        o, dims = obj(cls, c, un)
        old = object()
        setattr(o, "_" + at, old)
        nl = fresh_int("nlags", 1)
        q = SQuantity(fresh_arr("lag", [nl]), UNITS[un])
        bad = bad_lags(o, dims, q)
        k, e = outcome(setattr, o, at, q)
        if k == "ok":
            c.prove("only usable values are accepted", Not_(bad))
            got = getattr(o, at)
            c.prove("unit kept", got.unit == q.unit)
            c.prove("number kept", same_shape(got.value, [nl]))
            i = c.index("i", 0, nl.e)
            c.prove("values and order kept", same(got.value.get((i,)), q.value.get((i,))))
        else:
            c.prove("only unusable values are refused", bad)
            c.prove("refused with ValueError", isinstance(e, ValueError))
            c.prove("previous setting stays", getattr(o, "_" + at) is old)
        req_unchanged(c, "lags", q.value)


for cn in ("DeltaVariance", "Tsallis", "Wavelet"):
    for un in UNITS:
        setter(cn, un)


def refusals(cn):
    @S.contract(P + WHERE[cn], name=cn + "_refused_kinds")
    def f(c):
        cls, at = classes()[cn]
        o, dims = obj(cls, c, "deg")
        old = object()
        setattr(o, "_" + at, old)
        nl = fresh_int("nlags", 1)
        a = fresh_arr("lag", [nl], ge=1)
        for v, T, what in ((a, TypeError, "array without unit"), ([2., 3.], TypeError, "list"), (3., TypeError, "number"),
                           (SQuantity(a, u.pc), Exception, "physical lags without a distance"),
                           (SQuantity(a, u.K), Exception, "kelvin"), (SQuantity(a, u.s), Exception, "seconds")):
            k, e = outcome(setattr, o, at, v)
            c.prove(what + " refused", k == "exc" and isinstance(e, T))
            c.prove(what + ": previous setting stays", getattr(o, "_" + at) is old)


for cn in WHERE:
    refusals(cn)


def radius(un):
    @S.contract(P + "stat_moments/highstatmoments.py: StatMoments.radius", name="radius_%s" % un)
    def f(c):
        from turbustat.statistics.stat_moments.highstatmoments import StatMoments
        o, dims = obj(StatMoments, c, un)
        old = object()
        o._radius = old
        q = SQuantity(fresh_real("r"), UNITS[un])
        p = to_real(lift(o._to_pixel(q).value))
        half = to_real(lift(V.s_min(dims[0], dims[1]))) / 2
        ok = And_((p >= 2).c, (p <= half).c)
        k, e = outcome(setattr, o, "radius", q)
        if k == "ok":
            c.prove("accepted between two pixels and half of the map", ok)
            c.prove("kept as given", And_(o.radius.unit == q.unit, same(lift(o.radius.value), lift(q.value))))
        else:
            c.prove("refused only below two pixels or above half of the map", Not_(ok))
            c.prove("refused with ValueError", isinstance(e, ValueError))
            c.prove("previous setting stays", o._radius is old)


for un in UNITS:
    radius(un)


@S.contract(P + "stat_moments/highstatmoments.py: StatMoments.radius")
def radius_refused_kinds(c):
    from turbustat.statistics.stat_moments.highstatmoments import StatMoments
    o, dims = obj(StatMoments, c, "deg")
    old = object()
    o._radius = old
    for v, T in ((3., TypeError), (fresh_real("r"), TypeError), (SQuantity(fresh_real("r", lo=2), u.pc), Exception),
                 (SQuantity(fresh_real("r", lo=2), u.K), Exception)):
        k, e = outcome(setattr, o, "radius", v)
        c.prove("%s refused" % getattr(v, "unit", "bare number"), k == "exc" and isinstance(e, T))
        c.prove("previous setting stays", o._radius is old)


def roll(un):
    @S.contract(P + "scf/scf.py: SCF.roll_lags", name="roll_%s" % un)
    def f(c):
        from turbustat.statistics.scf.scf import SCF
        o, dims = obj(SCF, c, un, 3)
        nl = fresh_int("nlags", 1)
        q = SQuantity(fresh_arr("lag", [nl]), UNITS[un])
        k, e = outcome(setattr, o, "roll_lags", q)
        c.prove("any offset in a spatial unit is accepted", k == "ok")
        i = c.index("i", 0, nl.e)
        c.prove("kept as given", And_(o.roll_lags.unit == q.unit, same(o.roll_lags.value.get((i,)), q.value.get((i,)))))


for un in UNITS:
    roll(un)


@S.contract(P + "scf/scf.py: SCF.roll_lags")
def roll_refused_kinds(c):
    from turbustat.statistics.scf.scf import SCF
    o, dims = obj(SCF, c, "deg", 3)
    old = object()
    o._roll_lags = old
    nl = fresh_int("nlags", 1)
    a = fresh_arr("lag", [nl])
    for v, T, what in ((a, ValueError, "array without unit"), ([1, 2], ValueError, "list"),
                       (SQuantity(a, u.K), u.UnitConversionError, "kelvin"), (SQuantity(a, u.s), u.UnitConversionError, "seconds"),
                       (SQuantity(a, u.pc), Exception, "physical lags without a distance")):
        k, e = outcome(setattr, o, "roll_lags", v)
        c.prove(what + " refused", k == "exc" and isinstance(e, T))
        c.prove(what + ": previous setting stays", o._roll_lags is old)


@S.contract(P + "genus/genus.py: Genus.smoothing_radii")
def smoothing(c):
    from turbustat.statistics.genus.genus import Genus
    o, dims = obj(Genus, c, "pix")
    old = object()
    o._smoothing_radii, o._enable_smoothing = old, True
    nl = fresh_int("nr", 1)
    a = fresh_arr("rad", [nl])
    half = to_real(lift(V.s_min(dims[0], dims[1]))) / 2
    bad = Or_(to_bool(np_.any(a < 1)).c, to_bool(np_.any(a > half)).c)
    k, e = outcome(setattr, o, "smoothing_radii", a)
    if k == "ok":
        c.prove("only usable radii are accepted", Not_(bad))
        i = c.index("i", 0, nl.e)
        c.prove("values and order kept", And_(same_shape(o.smoothing_radii, [nl]), same(o.smoothing_radii.get((i,)), a.get((i,)))))
    else:
        c.prove("only unusable radii are refused", bad)
        c.prove("refused with ValueError", isinstance(e, ValueError))
        c.prove("previous setting stays", o._smoothing_radii is old)
