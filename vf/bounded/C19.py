"""Errors of moment maps: run-time contracts on real cubes."""
import warnings
import numpy as np
import astropy.units as u
from ..bcore import registry
from .util import need, close, expect, hdr3
CHECKS, check = registry()
M = "turbustat/moments/_moment_errs.py: "


def cube(rng, mask=True):
    from spectral_cube import SpectralCube
    from astropy.wcs import WCS
    sh = (rng.randint(2, 9), rng.randint(1, 5), rng.randint(1, 5))
    dv = float(rng.choice([100., 37.5, -100.]))
    w = WCS(hdr3(dv=dv, shape=sh))
    d = rng.rand(*sh) + .2
    m = rng.rand(*sh) > (.3 if mask else -1)
    if mask and rng.rand() < .5:
        m[:, 0, 0] = False
    if rng.rand() < .5:
        nan = rng.rand(*sh) < .1
        d[nan] = np.nan
        m &= ~nan
    c = SpectralCube(data=d * u.K, wcs=w).with_mask(m)
    return c, d, m, w


def noise(rng, sh, w, kind):
    from spectral_cube import SpectralCube
    if kind == 0:
        s = float(rng.choice([0.3, 1.7, 0.]))
        return s * u.K, np.full(sh, s)
    if kind == 1:
        s = 450. * rng.rand()
        return s * u.mK, np.full(sh, s / 1000.)
    n = rng.rand(*sh)
    n[rng.rand(*sh) < .1] = np.nan
    return SpectralCube(data=n * u.K, wcs=w), np.nan_to_num(n)


def reference(c, d, m, n):
    v = c.spectral_axis.value[:, None, None]
    dv = abs(v[1] - v[0]).item()
    T = np.where(m, d, 0.)
    with np.errstate(all="ignore"):
        S = np.where(m.any(0), T.sum(0), np.nan)
        e0 = np.where(m.any(0), np.sqrt((m * n ** 2).sum(0)) * dv, np.nan)
        m1 = (T * v).sum(0) / S
        e1 = np.sqrt((m * ((v - m1) / S * n) ** 2).sum(0))
        m2 = (T * (v - m1) ** 2).sum(0) / S
        e2 = np.sqrt((m * (((v - m1) ** 2 - m2) / S * n) ** 2).sum(0))
        lw = e2 / (2 * np.sqrt(m2))
    return e0, e1, e2, lw, m1, m2


@check(M + "moment0_error, moment1_error, moment2_error, linewidth_sigma_err, linewidth_fwhm_err", quick=14,
       bound="cubes up to 8 x 4 x 4 with masks and NaN; noise as a level in two units or as a cube")
def propagation(rng, k, hint):
    from turbustat.moments import _moment_errs as E
    c, d, m, w = cube(rng)
    s, n = noise(rng, d.shape, w, k % 3)
    e0, e1, e2, lw, m1, m2 = reference(c, d, m, n)
    has = m.any(0)
    big = has & (m2 > 1e-4 * (c.spectral_axis[1] - c.spectral_axis[0]).value ** 2)     # a width is defined
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for how in ("slice", "cube", "auto"):
            mom = [c.moment0(), c.moment1(), c.moment2()]
            for given in (False, True):
                kw = [{}, {}, {}]
                if given:
                    kw = [{}, {"moment0": mom[0], "moment1": mom[1]}, {"moment0": mom[0], "moment1": mom[1], "moment2": mom[2]}]
                before = [x.value.copy() for x in mom]
                tag = "%s, moments %s" % (how, "given" if given else "computed")
                r0 = E.moment0_error(c, s, how=how)
                need(close(r0.to(u.K * u.m / u.s).value[has], e0[has], 1e-7), "zeroth moment (%s)", tag)
                r1 = E.moment1_error(c, s, how=how, **kw[1])
                need(close(r1.to(u.m / u.s).value[has], e1[has], 1e-6, 1e-9), "first moment (%s)", tag)
                r2 = E.moment2_error(c, s, how=how, **kw[2])
                need(close(r2.to((u.m / u.s) ** 2).value[has], e2[has], 1e-6, 1e-6), "second moment (%s)", tag)
                rl = E.linewidth_sigma_err(c, s, how=how, **kw[2])
                need(close(rl.to(u.m / u.s).value[big], lw[big], 1e-5, 1e-7), "line width (%s)", tag)
                rf = E.linewidth_fwhm_err(c, s, how=how, **kw[2])
                need(close(rf.to(u.m / u.s).value[big], lw[big] * np.sqrt(8 * np.log(2)), 1e-5, 1e-7), "FWHM (%s)", tag)
                for a, b in zip(before, mom):
                    need(close(a, b.value), "given moments changed (%s)", tag)
                for r in (r0, r1, r2):
                    need(not (r.value < 0).any(), "negative error (%s)", tag)


@check("turbustat/moments/make_moments.py: Moments.scale, make_moment_errors", quick=8, bound="cubes up to 8 x 4 x 4")
def noise_level(rng, k, hint):
    from turbustat.moments import Moments, _moment_errs as E
    c, d, m, w = cube(rng)
    s = (.1 + rng.rand()) * u.K
    how = ("slice", "cube")[k % 2]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        M1 = Moments(c, scale=s, moment_method=how)
        expect(ValueError, "errors before the moments", M1.make_moment_errors)
        M1.make_moments()
        M1.make_moment_errors()
        M2 = Moments(c, moment_method=how)
        M2.make_moments()
        M2.make_moment_errors(scale=s)
        M3 = Moments(c, scale=2 * s, moment_method=how)
        M3.make_moments()
        M3.make_moment_errors()
        e0, e1, e2, lw, m1, m2 = reference(c, d, m, np.full(d.shape, s.value))
        has = m.any(0)
        big = has & (m2 > 1e-4 * (c.spectral_axis[1] - c.spectral_axis[0]).value ** 2)
        for nm, ok, w_ in (("moment0_err", has, e0), ("moment1_err", has, e1), ("linewidth_err", big, lw)):
            a = [np.asarray(getattr(x, nm).value)[ok] for x in (M1, M2, M3)]
            need(close(a[0], w_[ok], 1e-5, 1e-7), "%s is not the propagated noise", nm)
            need(close(a[0], a[1]), "%s differs when the noise level is given later", nm)
            need(close(a[0] * 2, a[2], 1e-9, 1e-12), "%s is not linear in the noise", nm)
    for bad in (-1e-9 * u.K, -3 * u.mK):
        expect(ValueError, "noise level %s" % bad, Moments, c, scale=bad)
    for bad in (1 * u.m, 1 * u.Jy, 1 * u.dimensionless_unscaled):
        expect(u.UnitsError, "noise level %s" % bad, Moments, c, scale=bad)
    expect(TypeError, "noise level without a unit", Moments, c, scale=0.3)
    expect(TypeError, "unknown method", Moments, c, moment_method="plane")
    from spectral_cube import SpectralCube
    n = np.ones((d.shape[0] + 1,) + d.shape[1:])
    other = SpectralCube(data=n * u.K, wcs=w)
    for f in (E.moment0_error, E.moment1_error, E.moment2_error):
        for h in ("slice", "cube"):
            expect(IndexError, "noise cube of another shape", f, c, other, how=h)
    expect(ValueError, "unknown method", E.moment0_error, c, s, how="plane")
