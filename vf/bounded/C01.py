"""Conversions against factors computed from the header cards."""
import numpy as np
import astropy.units as u
from ..bcore import Violation, registry
from .util import hdr2, hdr3, close, expect, written
CHECKS, check = registry()
T = "turbustat/statistics/base_statistic.py: BaseStatisticMixIn."
ANG = [u.deg, u.arcmin, u.arcsec, u.rad]
PHY = [u.pc, u.kpc, u.AU, u.m, u.lyr]


def obj(rng, hint=None, distance=True, three=False, cls=None):
    from turbustat.statistics.base_statistic import BaseStatisticMixIn
    o = BaseStatisticMixIn()
    pix = 10.0 ** rng.uniform(-5, -0.5)
    o.header = written(hdr3(rng, pix=pix) if three or rng.rand() < .3 else hdr2(rng, pix=pix), rng)
    d = None
    if distance:
        du = [u.pc, u.kpc, u.lyr, u.m][rng.randint(4)]
        d = 10.0 ** rng.uniform(-2, 4) * du
        o.distance = d
    return o, pix, d


def fac(pix, unit, d):
    if unit.is_equivalent(u.deg):
        return pix * u.deg.to(unit)
    return np.deg2rad(pix) * d.to(unit).value


def vals(rng):
    v = 10.0 ** rng.uniform(-3, 3)
    if rng.rand() < .4:
        return v * rng.uniform(0.1, 4, size=rng.randint(1, 5))
    return v


def cmp(q, unit, val, what):
    if q.unit != unit:
        raise Violation("%s: unit %s instead of %s" % (what, q.unit, unit))
    if not close(q.value, val, 1e-9):
        raise Violation("%s: %s instead of %s" % (what, q.value, val))


@check(T + "_to_pixel, _spatial_unit_conversion, _to_angular, _to_physical", quick=50,
       bound="random scales, distances and values; scales written as CDELT, PC or CD matrix")
def lengths(rng, k, hint):
    o, pix, d = obj(rng)
    for un in ANG + PHY:
        v = vals(rng)
        f = fac(pix, un, d)
        cmp(o._to_pixel(v * un), u.pix, v / f, "%s to pixels, pixel %g deg, distance %s" % (un, pix, d))
        cmp(o._spatial_unit_conversion(v * u.pix, un), un, v * f, "pixels to %s" % un)
        cmp(o._spatial_unit_conversion(v * u.pix, 2. * un), un, v * f, "pixels to %s" % un)
        cmp(o._spatial_unit_conversion(o._to_pixel(v * un), un), un, v, "round trip %s" % un)
    cmp(o._to_angular(v * u.pix), u.deg, v * pix, "to_angular")
    cmp(o._to_physical(v * u.pix), u.pc, v * fac(pix, u.pc, d), "to_physical")
    cmp(o._to_pixel(v * u.pix), u.pix, v, "pixels")
    cmp(o._spatial_unit_conversion(v * u.pix, u.pix), u.pix, v, "pixels")


@check(T + "_to_pixel_freq, _to_pixel_area, _spatial_freq_unit_conversion", quick=40, bound="random values")
def powers(rng, k, hint):
    o, pix, d = obj(rng)
    for un in ANG + PHY:
        v = vals(rng)
        f = fac(pix, un, d)
        cmp(o._to_pixel_freq(v / un), 1 / u.pix, v * f, "frequency in 1/%s" % un)
        cmp(o._to_pixel_area(v * un ** 2), u.pix ** 2, v / f ** 2, "area in %s2" % un)
        cmp(o._spatial_freq_unit_conversion(v / u.pix, un ** -1), un ** -1, v / f, "frequency to 1/%s" % un)
    cmp(o._to_pixel_freq(v / u.pix), 1 / u.pix, v, "pixel frequency")
    cmp(o._to_pixel_area(v * u.pix ** 2), u.pix ** 2, v, "pixel area")


@check(T + "_to_spectral, _spectral_freq_unit_conversion", quick=40, bound="velocity and frequency axes, either sign")
def spectral(rng, k, hint):
    from turbustat.statistics.base_statistic import BaseStatisticMixIn
    o = BaseStatisticMixIn()
    w = 10.0 ** rng.uniform(0, 4) * (1 if k % 2 else -1)
    vel = k % 3 < 2
    o.header = written(hdr3(rng, pix=1e-3, dv=w, vel=vel), rng)
    base = u.m / u.s if vel else u.Hz
    for un in ([u.m / u.s, u.km / u.s] if vel else [u.Hz, u.kHz, u.GHz]):
        f = abs(w) * base.to(un)
        v = vals(rng)
        cmp(o._to_spectral(v * u.pix, un), un, v * f, "channels to %s" % un)
        cmp(o._to_spectral(v * un, u.pix), u.pix, v / f, "%s to channels" % un)
        cmp(o._spectral_freq_unit_conversion(v / u.pix, un ** -1), un ** -1, v / f, "1/channels to 1/%s" % un)
        cmp(o._spectral_freq_unit_conversion(v / un, u.pix ** -1), u.pix ** -1, v * f, "1/%s to 1/channels" % un)


@check(T + "refusals", quick=10, bound="fixed list of wrong units and types")
def refused(rng, k, hint):
    o, pix, d = obj(rng, distance=False)
    o.header = hdr2(rng, pix=pix)
    UE = u.UnitConversionError
    AE = AttributeError
    for un in (u.K, u.s, u.km / u.s, u.dimensionless_unscaled, u.deg ** 2, u.pix ** 2, u.pix ** -1, u.Jy):
        expect(UE, "to_pixel of %s" % un, o._to_pixel, 2. * un)
        expect(UE, "conversion to %s" % un, o._spatial_unit_conversion, 2. * u.pix, un)
    for bad in (2., 3, np.arange(3.), [1., 2.], "2 pix", None):
        expect(TypeError, "to_pixel of %r" % (bad,), o._to_pixel, bad)
    for un in PHY:
        expect(AE, "no distance, %s" % un, o._to_pixel, 2. * un)
        expect(AE, "no distance, to %s" % un, o._spatial_unit_conversion, 2. * u.pix, un)
    BAD = (u.UnitsError, TypeError, AttributeError)
    for un in (u.pix, u.deg, u.pc, u.K, u.dimensionless_unscaled, u.pix ** -1, u.deg ** -2):
        expect(BAD, "area in %s" % un, o._to_pixel_area, 2. * un)
    for un in (u.pix, u.deg, u.pc, u.K, u.dimensionless_unscaled, u.pix ** 2, u.pc ** 2):
        expect(BAD, "frequency in %s" % un, o._to_pixel_freq, 2. * un)
        expect(BAD, "frequency to %s" % un, o._spatial_freq_unit_conversion, 2. / u.pix, un)
    for bad in (2., None, "2 pc"):
        expect(TypeError, "distance %r" % (bad,), setattr, o, "distance", bad)
    for bad in (2. * u.deg, 2. * u.K, 3 * u.pix, 2. * u.km / u.s, 2. * u.dimensionless_unscaled):
        expect(UE, "distance %r" % (bad,), setattr, o, "distance", bad)
    for bad in (np.array([1., 2.]) * u.pc, np.array([1.]) * u.kpc):
        expect(TypeError, "distance %r" % (bad,), setattr, o, "distance", bad)
    if hasattr(o, "_distance"):
        raise Violation("a refused distance was stored")
    expect(ValueError, "no spectral axis", o._to_spectral, 2. * u.pix, u.km / u.s)
    h = o.header.copy()
    h["CDELT2"] = h["CDELT2"] * 1.5
    o.header = h
    expect(ValueError, "distorted pixels", o._to_pixel, 2. * u.deg)


@check("every statistic with a header: _to_pixel on its own header", quick=6, bound="2-D statistics on 24x24 maps")
def inherited(rng, k, hint):
    from turbustat.statistics import PowerSpectrum, DeltaVariance, Wavelet, StatMoments, Genus, Bispectrum
    pix = 10.0 ** rng.uniform(-4, -1)
    h = hdr2(rng, pix=pix)
    im = rng.rand(24, 24) + 1
    d = 250. * u.pc
    for cls, kw in ((PowerSpectrum, {}), (DeltaVariance, {}), (Wavelet, {}), (StatMoments, {})):
        try:
            o = cls(im, header=h, distance=d, **kw)
        except TypeError:
            o = cls(im, header=h, **kw)
            o.distance = d
        cmp(o._to_pixel(pix * 3 * u.deg), u.pix, 3., cls.__name__)
        cmp(o._to_pixel(np.deg2rad(pix) * 250 * 3 * u.pc), u.pix, 3., cls.__name__)
        cmp(o._to_pixel_freq(1 / (np.deg2rad(pix) * 250 * 3 * u.pc)), 1 / u.pix, 1 / 3., cls.__name__)
