"""Local moment maps on real images, against a direct per-pixel evaluation."""
import numpy as np
import astropy.units as u
from ..bcore import Violation, registry
from .util import need, close, expect, image, hdr2, Frozen
CHECKS, check = registry()
H = "turbustat/statistics/stat_moments/highstatmoments.py: "


def moments(x, w):
    ok = np.isfinite(x) & np.isfinite(w)
    x, w = x[ok], w[ok]
    W = w.sum()
    m = (w * x).sum() / W
    v = (w * (x - m) ** 2).sum() / W
    s = np.sqrt(v)
    return m, v, (w * ((x - m) / s) ** 3).sum() / W, (w * ((x - m) / s) ** 4).sum() / W - 3


@check(H + "compute_moments", quick=80, bound="images up to 9 x 9 with NaN, non-negative weights with NaN and zeros")
def whole(rng, k, hint):
    from turbustat.statistics.stat_moments.highstatmoments import compute_moments
    sh = tuple(rng.randint(2, 10, 2))
    x = image(rng, sh, nan=rng.choice([0, .2])) * 10. ** rng.randint(-2, 3) + rng.choice([0, 5.])
    w = rng.rand(*sh) if rng.rand() < .6 else np.ones(sh)
    if rng.rand() < .3:
        w[rng.rand(*sh) < .2] = np.nan
    if rng.rand() < .3:
        w[rng.rand(*sh) < .2] = 0
    ok = np.isfinite(x) & np.isfinite(w) & (w > 0)
    if ok.sum() < 3:
        return
    fr = Frozen(x=x, w=w)
    got = compute_moments(x, w)
    need(np.allclose(got, moments(x, w), rtol=1e-6, atol=1e-8), "moments of %s with weights %s: %s, not %s",
         x.tolist(), w.tolist(), got, moments(x, w))
    need(got[1] >= 0, "negative variance")
    fr.check("compute_moments")
    y = rng.normal(size=(4, 5))
    y = np.stack([y, -y])[0:2].reshape(8, 5)
    g = compute_moments(y + 3, np.ones_like(y))
    need(abs(g[2]) < 1e-8, "skewness of symmetric data is %r", g[2])
    g = compute_moments(y, np.ones_like(y))
    need(close(g[3], moments(y, np.ones_like(y))[3]), "kurtosis")


@check(H + "circular_region", quick=10, bound="radii 1..10")
def circle(rng, k, hint):
    from turbustat.statistics.stat_moments.highstatmoments import circular_region
    r = k + 1
    o = circular_region(r)
    y, x = np.mgrid[-r:r + 1, -r:r + 1]
    need(o.shape == y.shape and np.array_equal(np.isnan(o), x ** 2 + y ** 2 >= r * r) and np.all(o[~np.isnan(o)] == 1),
         "circular region of radius %d", r)


@check(H + "StatMoments.compute_spatial_distrib, array_moments, run", quick=24,
       bound="images up to 14 x 14 with NaN, radius 2..4 in pixels, degrees or parsec, both boundary modes, weights, min_frac")
def maps(rng, k, hint):
    from turbustat.statistics import StatMoments
    per = bool(k % 2)
    r = float(rng.choice([2, 2.5, 3, 4]))
    mode = k % 3
    if mode:
        r = max(r - .3, 2.05)
    R = int(np.ceil(r))
    sh = tuple(rng.randint(2 * R, 15, 2))
    x = image(rng, sh, nan=rng.choice([0, .05, .2])) + rng.choice([0, 3.])
    w = None
    if rng.rand() < .5:
        w = rng.rand(*sh) + .1
        if rng.rand() < .5:
            w[rng.rand(*sh) < .05] = np.nan
    mf = float(rng.choice([.3, .5, .8, 1.]))
    rad = r * u.pix
    kw = {}
    if mode == 1:
        rad = r * 0.01 * u.deg
    if mode == 2:
        kw["distance"] = 100 * u.pc
        rad = r * np.radians(.01) * 100 * u.pc
    fr = Frozen(x=x, w=w)
    how = rng.randint(2)
    if how:
        o = StatMoments(x, hdr2(), weights=w, radius=rad, **kw)
        o.compute_spatial_distrib(periodic=per, min_frac=mf, show_progress=False)
    else:
        o = StatMoments(x, hdr2(), weights=w, radius=2 * u.pix, **kw)
        try:
            o.run(radius=rad, periodic=per, min_frac=mf, show_progress=False)
        except ValueError as e:
            if "finite" in str(e) or "zero-size" in str(e):      # every region rejected: no histogram
                return
            raise
    W = np.ones(sh) if w is None else w
    need(np.allclose((o.array_moments(), o.mean, o.variance, o.skewness, o.kurtosis)[1:], moments(x, W), rtol=1e-6, atol=1e-8),
         "moments of the whole image")
    y, xx = np.mgrid[-R:R + 1, -R:R + 1]
    circ = y ** 2 + xx ** 2 < R * R
    ref = np.full((4,) + sh, np.nan)
    for i in range(sh[0]):
        for j in range(sh[1]):
            ii, jj = i + y, j + xx
            if per:
                a, b = x[ii % sh[0], jj % sh[1]], W[ii % sh[0], jj % sh[1]]
            else:
                out = (ii < 0) | (ii >= sh[0]) | (jj < 0) | (jj >= sh[1])
                a = np.where(out, np.nan, x[np.clip(ii, 0, sh[0] - 1), np.clip(jj, 0, sh[1] - 1)])
                b = np.where(out, np.nan, W[np.clip(ii, 0, sh[0] - 1), np.clip(jj, 0, sh[1] - 1)])
            if np.isfinite(a).mean() < mf or np.isfinite(b).mean() < mf:
                continue
            ref[:, i, j] = moments(np.where(circ, a, np.nan), b)
    for n, (nm, q) in enumerate(zip(("mean", "variance", "skewness", "kurtosis"), ref)):
        g = getattr(o, nm + "_array")
        what = "%s map of a %s image, radius %s, periodic %s, min_frac %s, weights %s, %s" % (
            nm, sh, rad, per, mf, w is not None, "run" if not how else "compute_spatial_distrib")
        need(g.shape == sh, "%s: shape %s", what, g.shape)
        need(np.array_equal(np.isnan(g), np.isnan(q)), "%s: missing pixels %s, expected %s", what,
             np.argwhere(np.isnan(g)).tolist()[:6], np.argwhere(np.isnan(q)).tolist()[:6])
        need(np.allclose(g, q, rtol=1e-5, atol=1e-7, equal_nan=True), "%s: values", what)
        if n == 1:
            need(not np.any(g < 0), "%s: negative", what)
    fr.check("StatMoments")
    for bad in (0., -.1, 1.01):
        expect(ValueError, "min_frac %r" % bad, o.compute_spatial_distrib, min_frac=bad, show_progress=False)
