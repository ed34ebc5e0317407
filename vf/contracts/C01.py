"""Unit conversions of BaseStatisticMixIn."""
import astropy.units as u
from ..harness import *
from .. import stubs

S = Suite("C01")
T = "turbustat/statistics/base_statistic.py: BaseStatisticMixIn."


def obj(distance=None, spec=False, square=True):
    from turbustat.statistics.base_statistic import BaseStatisticMixIn
    o = BaseStatisticMixIn()
    o.header = stubs.header(spec=spec, square=square)
    if distance is not None:
        o.distance = distance
    return o


def factor(o, unit, dist=None):
    """pixels -> unit: the pixel scale in that unit (small angles for lengths)"""
    p = o._header.pix_scale_x
    if unit.is_equivalent(u.deg):
        return p * V.ufac(u.deg, unit)
    return p * V.ufac(u.deg, u.rad) * dist.value * V.ufac(dist.unit, unit)


def eq(c, name, q, unit, val):
    c.prove(name + ": unit", q.unit == unit)
    c.prove(name, same(lift(q.value), lift(val)))


ANG = [u.deg, u.arcmin, u.arcsec, u.rad]
PHY = [u.pc, u.kpc, u.AU, u.m]


@S.contract(T + "_to_pixel, _to_angular, _spatial_unit_conversion")
def angular(c):
    o = obj()
    for un in ANG:
        v = fresh_real("v")
        eq(c, "to pixel %s" % un, o._to_pixel(v * un), u.pix, v / factor(o, un))
        eq(c, "from pixel %s" % un, o._spatial_unit_conversion(v * u.pix, un), un, v * factor(o, un))
        eq(c, "unit given as quantity %s" % un, o._spatial_unit_conversion(v * u.pix, 3. * un), un, v * factor(o, un))
        eq(c, "to_angular %s" % un, o._to_angular(v * u.pix, un), un, v * factor(o, un))
        eq(c, "round trip %s" % un, o._spatial_unit_conversion(o._to_pixel(v * un), un), un, v)
    v = fresh_real("v")
    eq(c, "pixels kept", o._to_pixel(v * u.pix), u.pix, v)
    eq(c, "pixels kept (2)", o._spatial_unit_conversion(v * u.pix, u.pix), u.pix, v)
    eq(c, "default angular unit", o._to_angular(v * u.pix), u.deg, v * factor(o, u.deg))


@S.contract(T + "_to_pixel, _to_physical, _physical_size", budget_s=200)
def physical(c):
    for du in (u.pc, u.kpc, u.lyr):
        d = fresh_real("dist", gt=0) * du
        o = obj(d)
        c.prove("distance kept", o.distance is d or same(lift(o.distance.value), lift(d.value)))
        for un in PHY:
            v = fresh_real("v")
            eq(c, "to pixel %s" % un, o._to_pixel(v * un), u.pix, v / factor(o, un, d))
            eq(c, "from pixel %s" % un, o._spatial_unit_conversion(v * u.pix, un), un, v * factor(o, un, d))
            eq(c, "to_physical %s" % un, o._to_physical(v * u.pix, un), un, v * factor(o, un, d))
        v = fresh_real("v")
        eq(c, "default physical unit", o._to_physical(v * u.pix), u.pc, v * factor(o, u.pc, d))
        eq(c, "angular with a distance", o._to_pixel(v * u.arcsec), u.pix, v / factor(o, u.arcsec))


@S.contract(T + "_to_pixel (arrays)")
def arrays(c):
    n = fresh_int("n", 1)
    d = fresh_real("dist", gt=0) * u.pc
    o = obj(d)
    for un in (u.arcsec, u.pc, u.pix):
        a = fresh_arr("a", [n], nan=True)
        q = o._to_pixel(a * un)
        k = c.index("k", 0, n.e)
        f = 1.0 if un == u.pix else factor(o, un, d)
        c.prove("pixel array %s shape" % un, same_shape(q.value, [n]))
        c.prove("pixel array %s" % un, same(q.value.get((k,)), a.get((k,)) / lift(f)))
        b = o._spatial_unit_conversion(a * u.pix, un)
        c.prove("from pixel array %s" % un, same(b.value.get((k,)), a.get((k,)) * lift(f)))
        req_unchanged(c, "frame", a)


@S.contract(T + "_to_pixel_freq, _spatial_freq_unit_conversion")
def frequencies(c):
    d = fresh_real("dist", gt=0) * u.pc
    o = obj(d)
    for un in (u.deg, u.arcsec, u.pc, u.AU):
        v = fresh_real("v", gt=0)
        eq(c, "freq to pixel %s" % un, o._to_pixel_freq(v / un), u.pix ** -1, v * factor(o, un, d))
        q = o._spatial_freq_unit_conversion(v / u.pix, un ** -1)
        eq(c, "freq from pixel %s" % un, q, un ** -1, v / factor(o, un, d))
    v = fresh_real("v", gt=0)
    eq(c, "pixel freq kept", o._to_pixel_freq(v / u.pix), u.pix ** -1, v)
    eq(c, "pixel freq kept (2)", o._spatial_freq_unit_conversion(v / u.pix, u.pix ** -1), u.pix ** -1, v)


@S.contract(T + "_to_pixel_area")
def areas(c):
    d = fresh_real("dist", gt=0) * u.pc
    o = obj(d)
    for un in (u.deg, u.arcsec, u.pc):
        v = fresh_real("v", gt=0)
        q = o._to_pixel_area(v * un ** 2)
        f = factor(o, un, d)
        eq(c, "area to pixel %s" % un, q, u.pix ** 2, v / (f * f))
    v = fresh_real("v", gt=0)
    eq(c, "pixel area kept", o._to_pixel_area(v * u.pix ** 2), u.pix ** 2, v)


@S.contract(T + "_to_spectral, _spectral_size, _spectral_freq_unit_conversion")
def spectral(c):
    o = obj(spec=True)
    w = abs(o._header.spec_delta)
    for un in (u.m / u.s, u.km / u.s):
        f = w * V.ufac(u.m / u.s, un)
        v = fresh_real("v")
        eq(c, "channels to %s" % un, o._to_spectral(v * u.pix, un), un, v * f)
        eq(c, "%s to channels" % un, o._to_spectral(v * un, u.pix), u.pix, v / f)
        eq(c, "round trip %s" % un, o._to_spectral(o._to_spectral(v * un, u.pix), un), un, v)
        p = fresh_real("p", gt=0)
        eq(c, "freq to %s^-1" % un, o._spectral_freq_unit_conversion(p / u.pix, un ** -1), un ** -1, p / f)
        eq(c, "%s^-1 to freq" % un, o._spectral_freq_unit_conversion(p / un, u.pix ** -1), u.pix ** -1, p * f)


def refused(c, name, types, f, *a, **k):
    r, e = outcome(f, *a, **k)
    c.prove(name, r == "exc" and isinstance(e, types))


@S.contract(T + "_to_pixel, distance.setter (refusals)")
def refusals(c):
    o = obj()
    v = fresh_real("v")
    UE = (u.UnitConversionError,)
    AE = (AttributeError,)
    for un in (u.K, u.s, u.km / u.s, u.dimensionless_unscaled, u.deg ** 2, u.pix ** 2, u.pix ** -1):
        refused(c, "to_pixel of %s refused" % (un or "no unit"), UE, o._to_pixel, v * un)
        refused(c, "conversion to %s refused" % (un or "no unit"), UE, o._spatial_unit_conversion, v * u.pix, un)
    refused(c, "bare number refused", TypeError, o._to_pixel, v)
    refused(c, "bare array refused", TypeError, o._to_pixel, fresh_arr("a", [3]))
    for un in PHY:
        refused(c, "no distance: %s refused" % un, AE, o._to_pixel, v * un)
        refused(c, "no distance: to %s refused" % un, AE, o._spatial_unit_conversion, v * u.pix, un)
    refused(c, "no distance: to_physical", AE, o._to_physical, v * u.pix)
    refused(c, "no distance: size", AE, lambda: o._physical_size)
    refused(c, "no distance: attribute", AE, lambda: o.distance)
    refused(c, "bare distance", TypeError, setattr, o, "distance", v)
    for un in (u.deg, u.K, u.pix, u.km / u.s):
        refused(c, "distance in %s" % un, UE, setattr, o, "distance", v * un)
    refused(c, "array distance", TypeError, setattr, o, "distance", fresh_arr("d", [2]) * u.pc)
    c.prove("nothing stored by a refused distance", not hasattr(o, "_distance"))
    refused(c, "no spectral axis", ValueError, o._to_spectral, v * u.pix, u.km / u.s)


@S.contract(T + "_to_pixel_area, _to_pixel_freq, _spatial_freq_unit_conversion, _to_spectral (refusals)")
def power_refusals(c):
    o = obj(fresh_real("dist", gt=0) * u.pc)
    v = fresh_real("v", gt=0)
    BAD = (u.UnitsError, TypeError, AttributeError)
    for un in (u.pix, u.deg, u.pc, u.K, u.dimensionless_unscaled, u.pix ** -1, u.deg ** -2):
        refused(c, "area in %s refused" % (un or "no unit"), BAD, o._to_pixel_area, v * un)
    for un in (u.pix, u.deg, u.pc, u.K, u.dimensionless_unscaled, u.pix ** 2, u.pc ** 2):
        refused(c, "frequency in %s refused" % (un or "no unit"), BAD, o._to_pixel_freq, v * un)
        refused(c, "frequency to %s refused" % (un or "no unit"), BAD, o._spatial_freq_unit_conversion, v / u.pix, un)
    for f in (o._to_pixel_area, o._to_pixel_freq):
        refused(c, "bare number refused (%s)" % f.__name__, BAD, f, v)
    s = obj(spec=True)
    for un in (u.K, u.deg, u.pc, u.dimensionless_unscaled, u.pix ** 2):
        refused(c, "channels to %s refused" % (un or "no unit"), BAD, s._to_spectral, v * u.pix, un)
        refused(c, "%s to channels refused" % (un or "no unit"), BAD, s._to_spectral, v * un, u.pix)


@S.contract(T + "_wcs (distorted pixels), header")
def no_header(c):
    from turbustat.statistics.base_statistic import BaseStatisticMixIn
    o = BaseStatisticMixIn()
    v = fresh_real("v")
    AE = (AttributeError,)
    refused(c, "no header: angular", AE, o._to_pixel, v * u.deg)
    refused(c, "no header: to_angular", AE, o._to_angular, v * u.pix)
    refused(c, "no header: size", AE, lambda: o._ang_size)
    o = obj(square=False)
    d = o._header.distorted
    r, e = outcome(o._to_pixel, v * u.deg)
    if r == "exc":
        c.prove("refused because distorted", And_(zb(isinstance(e, ValueError)), d.c))
    else:
        c.prove("distorted pixels never used", Not_(d.c))
