"""Comparisons of maps with different pixel sizes."""
import numpy as np
import astropy.units as u
from astropy.wcs import WCS, WcsError
from ..bcore import Violation, registry
from .util import need, close, expect, image, hdr2, hdr3, Frozen
CHECKS, check = registry()
P = "turbustat/statistics/"
RATIOS = [1., 2., .5, 1.25, .8, 1.6, .4]


@check(P + "stats_utils.py: common_scale", quick=80, bound="pixel sizes 1e-4..0.1 deg, non-square and skewed pixels, two and three axes")
def scale(rng, k, hint):
    from turbustat.statistics.stats_utils import common_scale
    a, b = 10 ** rng.uniform(-4, -1, 2)
    h1 = hdr2(pix=a) if rng.rand() < .5 else hdr3(pix=a)
    h2 = hdr2(pix=b) if rng.rand() < .5 else hdr3(pix=b)
    need(close(common_scale(WCS(h1), WCS(h2)), b / a), "scale of %g and %g is %r", a, b, common_scale(WCS(h1), WCS(h2)))
    for i in (0, 1):
        hs = [h1.copy(), h2.copy()]
        hs[i]["CDELT2"] += 3e-5 * rng.choice([1, 10, 100])
        expect(ValueError, "non-square pixels in map %d" % (i + 1), common_scale, WCS(hs[0]), WCS(hs[1]))
        hs = [h1.copy(), h2.copy()]
        for kk, v in (("PC1_1", 1.), ("PC1_2", .3), ("PC2_1", 0.), ("PC2_2", 1.)):
            hs[i][kk] = v
        expect(WcsError, "distorted map %d" % (i + 1), common_scale, WCS(hs[0]), WCS(hs[1]))


def pixels(stat, q):
    return stat._to_pixel(q).value


def pair(rng, cube=False):
    r = rng.choice(RATIOS)
    p1 = .01
    p2 = p1 * r
    if cube:
        return r, (rng.rand(3, 16, 16) + .1, hdr3(pix=p1)), (rng.rand(4, 18, 18) + .1, hdr3(pix=p2))
    return r, (image(rng, (30, 34)) + 5, hdr2(pix=p1)), (image(rng, (32, 30)) + 5, hdr2(pix=p2))


@check(P + "delta_variance/delta_variance.py: DeltaVariance_Distance.__init__", quick=14,
       bound="maps of about 30 x 30 pixels, pixel-size ratios 0.4..2, lags in pixels (with or without unit) or degrees, raw or pre-computed")
def delvar(rng, k, hint):
    from turbustat.statistics import DeltaVariance
    from turbustat.statistics.delta_variance import DeltaVariance_Distance
    r, a, b = pair(rng)
    lags = np.sort(rng.uniform(2., 6., 4))
    un = rng.choice(["pix", "bare", "deg"])
    kw = dict(fit_kwargs={}) if False else {}
    if un == "deg":
        q = (lags * .01 * max(1, r)) * u.deg
        e1, e2 = lags * max(1, r), lags * max(1, r) / r
    else:
        q = lags * u.pix if un == "pix" else lags
        e1, e2 = (lags * r, lags) if r > 1 else (lags, lags / r)
    A, B = a, b
    if rng.rand() < .4:
        A = DeltaVariance(a, lags=np.array([3., 4, 5]) * u.pix).run(verbose=False)
    if rng.rand() < .4:
        B = DeltaVariance(b, lags=np.array([3., 4, 5, 6]) * u.pix).run(verbose=False)
    fr = Frozen(lags=q)
    d = DeltaVariance_Distance(A, B, lags=q)
    for n, s, e in ((1, d.delvar1, e1), (2, d.delvar2, e2)):
        need(close(pixels(s, s.lags), e, 1e-6), "lags of map %d for %s (pixel ratio %g): %s pixels instead of %s", n, q, r, pixels(s, s.lags), e)
        need(len(s.delta_var) == len(e), "map %d has %d values for %d lags", n, len(s.delta_var), len(e))
        ref = DeltaVariance(a if n == 1 else b, lags=e * u.pix)
        ref.compute_deltavar(show_progress=False)
        need(close(s.delta_var, ref.delta_var, 1e-6), "map %d was not measured at the common lags", n)
    fr.check("DeltaVariance_Distance")


@check(P + "scf/scf.py: SCF_Distance.__init__", quick=14, bound="cubes up to 4 x 18 x 18, pixel-size ratios 0.4..2, sizes 3..7, raw or pre-computed")
def scf(rng, k, hint):
    from turbustat.statistics import SCF
    from turbustat.statistics.scf import SCF_Distance
    r, a, b = pair(rng, True)
    size = int(rng.choice([3, 4, 5, 7]))
    odd = size if size % 2 else size - 1
    lags = np.arange(odd) - odd // 2
    e1, e2 = (lags * r, lags) if r > 1 else (lags, lags / r)
    A, B = a, b
    pre = rng.rand() < .5 and r != 1
    if pre:
        A = SCF(a, size=rng.choice([3, 5]))
        A.run(verbose=False, show_progress=False) if rng.rand() < .7 else None
    d = SCF_Distance(A, B, size=size, show_progress=False)
    for n, s, e in ((1, d.scf1, e1), (2, d.scf2, e2)):
        need(close(pixels(s, s.roll_lags), e, 1e-6), "roll lags of cube %d (pixel ratio %g): %s instead of %s", n, r, s.roll_lags, e)
        need(s.scf_surface.shape == (odd, odd), "surface %s for size %d", s.scf_surface.shape, size)
        ref = SCF(a if n == 1 else b, roll_lags=e * u.pix)
        ref.compute_surface(show_progress=False)
        need(close(s.scf_surface, ref.scf_surface, 1e-6, 1e-9), "cube %d was not measured at the common lags", n)


@check(P + "stat_moments/highstatmoments.py: StatMoments_Distance.__init__", quick=8,
       bound="maps of about 30 x 30 pixels, pixel-size ratios 0.4..2, radius in pixels or degrees, raw or pre-computed")
def moments(rng, k, hint):
    from turbustat.statistics import StatMoments
    from turbustat.statistics.stat_moments import StatMoments_Distance
    r, a, b = pair(rng)
    v = rng.choice([2.3, 3.3, 4.1])
    if rng.rand() < .4:
        q = v * .01 * max(1, r) * u.deg
        e1, e2 = v * max(1, r), v * max(1, r) / r
    else:
        q = v * u.pix
        e1, e2 = (v * r, v) if r > 1 else (v, v / r)
    A = a
    if rng.rand() < .4:
        A = StatMoments(a, radius=(e1 + 2 if e1 < 10 else e1 - 3) * u.pix)
        A.compute_spatial_distrib()
    d = StatMoments_Distance(A, b, radius=q)
    for n, s, e in ((1, d.moments1, e1), (2, d.moments2, e2)):
        need(close(pixels(s, s.radius), e, 1e-6), "radius of map %d for %s (pixel ratio %g): %s pixels instead of %s", n, q, r, pixels(s, s.radius), e)
        ref = StatMoments(a if n == 1 else b, radius=e * u.pix)
        ref.compute_spatial_distrib()
        need(close(s.mean_array, ref.mean_array, 1e-7, 1e-9), "map %d was not measured at the common radius", n)
