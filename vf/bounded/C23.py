"""Lags, scales, radii set on real statistics."""
import numpy as np
import astropy.units as u
from ..bcore import Violation, registry
from .util import need, close, image, hdr2, hdr3, Frozen
CHECKS, check = registry()
P = "turbustat/statistics/"
D = 250. * u.pc


def in_unit(pix, un, scale, dist):
    if un == "pix":
        return pix * u.pix
    a = pix * scale * u.deg
    if un in ("deg", "arcmin"):
        return a.to(getattr(u, un))
    return (a.to(u.rad).value * dist).to(u.pc)


def stats(rng, sh, scale, dist):
    from turbustat.statistics import DeltaVariance, Tsallis, Wavelet, StatMoments, SCF, Genus
    im = image(rng, sh) + 3.
    h = hdr2(pix=scale)
    return [("DeltaVariance", DeltaVariance((im, h), distance=dist), "lags"),
            ("Tsallis", Tsallis((im, h), distance=dist), "lags"),
            ("Wavelet", Wavelet((im, h), distance=dist), "scales")]


def limit_values(rng, half):
    """values with the pixel-conversion rounding kept away, and exact limits in pixels"""
    return rng.choice([.2, .95, 1.2, 1.7, 2.3, half - .3, half - .7, np.floor(half) + .5, np.floor(half) + 1.2, 3 * half])


@check(P + "delta_variance/delta_variance.py: DeltaVariance.lags; tsallis/tsallis.py: Tsallis.lags; "
           "wavelets/wavelet_transform.py: Wavelet.scales", quick=60,
       bound="maps 8..21 pixels a side, 1..4 lags in pixels, degrees, arcminutes or parsec, at and around the limits, after earlier settings")
def lags(rng, k, hint):
    sh = tuple(int(n) for n in rng.randint(8, 22, 2))
    scale = 10 ** rng.uniform(-4, -1)
    half = min(sh) / 2.
    for name, o, at in stats(rng, sh, scale, D):
        for un in ("pix", "deg", "arcmin", "pc"):
            for rep in range(2):
                old = getattr(o, at)
                v = np.array([limit_values(rng, half) for i in range(rng.randint(1, 5))])
                if rng.rand() < .5:
                    v = np.clip(v, 1.1, half - .2)
                if un == "pix" and rng.rand() < .5:
                    v = np.append(v, rng.choice([1., half, np.floor(half), np.floor(half) + 1]))
                    if rng.rand() < .5:
                        v = v[-1:]
                q = in_unit(v, un, scale, D)
                ok = np.all(v >= 1) and np.all(np.floor(v) <= half)
                fr = Frozen(q=q)
                try:
                    setattr(o, at, q)
                    acc = True
                except ValueError:
                    acc = False
                need(acc == ok, "%s.%s = %s (%s pixels) on a %s map: %s", name, at, q, v.tolist(), sh, "accepted" if acc else "refused")
                got = getattr(o, at)
                if acc:
                    need(got.unit == q.unit and np.array_equal(got.value, q.value), "%s.%s = %s stored as %s", name, at, q, got)
                else:
                    need(got is old or (got.unit == old.unit and np.array_equal(got.value, old.value)),
                         "%s.%s changed although %s was refused", name, at, q)
                fr.check(name)
        for bad in ([2., 3.], 3., np.array([2., 3.]), np.array([2., 3.]) * u.K, np.array([2., 3.]) * u.s):
            old = getattr(o, at)
            try:
                setattr(o, at, bad)
            except Exception:
                need(getattr(o, at) is old, "%s.%s changed although %r was refused", name, at, bad)
            else:
                raise Violation("%s.%s accepted %r" % (name, at, bad))


@check(P + "stat_moments/highstatmoments.py: StatMoments.radius", quick=60,
       bound="maps 8..21 pixels a side, radii in pixels, degrees, arcminutes or parsec at and around the limits")
def radius(rng, k, hint):
    from turbustat.statistics import StatMoments
    sh = tuple(int(n) for n in rng.randint(8, 22, 2))
    scale = 10 ** rng.uniform(-4, -1)
    half = min(sh) / 2.
    o = StatMoments((image(rng, sh) + 3, hdr2(pix=scale)), radius=3 * u.pix, distance=D)
    for un in ("pix", "deg", "arcmin", "pc"):
        old = o.radius
        v = rng.choice([.5, 1.6, 1.99, 2.01, 2.4, half - .01, half - .6, half + .01, half + .4, half + 2])
        if un == "pix" and rng.rand() < .4:
            v = rng.choice([2, half, half + .5, 1.])
        q = in_unit(v, un, scale, D)
        ok = 2 <= v <= half
        try:
            o.radius = q
            acc = True
        except ValueError:
            acc = False
        need(acc == ok, "radius %s (%s pixels) on a %s map: %s", q, v, sh, "accepted" if acc else "refused")
        need((o.radius is q) if acc else (o.radius is old), "radius after setting %s is %s", q, o.radius)
    for bad in (3., 3, np.array(3.), 3 * u.K, 3 * u.s):
        old = o.radius
        try:
            o.radius = bad
        except Exception:
            need(o.radius is old, "radius changed although %r was refused", bad)
        else:
            raise Violation("radius accepted %r" % (bad,))


@check(P + "scf/scf.py: SCF.roll_lags", quick=40, bound="cubes up to 3 x 12 x 12, sizes 3..11, lags in pixels, degrees or parsec")
def roll(rng, k, hint):
    from turbustat.statistics import SCF
    n = rng.randint(6, 13)
    scale = 10 ** rng.uniform(-4, -1)
    size = int(rng.randint(3, 12))
    o = SCF((rng.rand(3, n, n), hdr3(pix=scale)), size=size, distance=D)
    r = o.roll_lags
    m = size if size % 2 else size - 1
    need(r.unit == u.pix and len(r) == m and np.array_equal(r.value, np.arange(m) - m // 2), "default roll lags for size %d: %s", size, r)
    for un in ("pix", "deg", "pc"):
        v = np.sort(rng.randint(-4, 5, rng.randint(1, 6)).astype(float))
        if rng.rand() < .5:
            v = v + .25
        q = in_unit(v, un, scale, D)
        o.roll_lags = q
        need(o.roll_lags.unit == q.unit and np.array_equal(o.roll_lags.value, q.value), "roll lags %s stored as %s", q, o.roll_lags)
    for bad in ([1, 2], np.array([1, 2]), np.array([1., 2]) * u.K, np.array([1, 2.]) * u.s):
        old = o.roll_lags
        try:
            o.roll_lags = bad
        except Exception:
            need(o.roll_lags is old, "roll lags changed although %r was refused", bad)
        else:
            raise Violation("roll lags %r accepted" % (bad,))


@check(P + "genus/genus.py: Genus.smoothing_radii", quick=40, bound="maps 8..21 pixels a side, 1..4 radii at and around the limits")
def smoothing(rng, k, hint):
    from turbustat.statistics import Genus
    sh = tuple(int(n) for n in rng.randint(8, 22, 2))
    half = min(sh) / 2.
    v = np.array([rng.choice([.5, .99, 1., 1.2, 2, half, half - .5, half + .5, half + .01]) for i in range(rng.randint(1, 5))])
    if rng.rand() < .5:
        v = np.clip(v, 1, half)
    ok = np.all(v >= 1) and np.all(v <= half)
    im = image(rng, sh)
    try:
        o = Genus((im, hdr2()), smoothing_radii=v)
        acc = True
    except ValueError:
        acc = False
    need(acc == ok, "smoothing radii %s on a %s map: %s", v.tolist(), sh, "accepted" if acc else "refused")
    if acc:
        need(np.array_equal(o.smoothing_radii, v), "smoothing radii %s stored as %s", v, o.smoothing_radii)
        try:
            o.smoothing_radii = np.array([half + 1.])
        except ValueError:
            need(np.array_equal(o.smoothing_radii, v), "smoothing radii changed by a refused setting")
        else:
            raise Violation("smoothing radius above half of the map accepted")
