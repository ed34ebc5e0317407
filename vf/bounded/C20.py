"""Segmented fits: run-time contracts."""
import warnings
import numpy as np
from ..bcore import registry
from .util import need, close, expect, Frozen
CHECKS, check = registry()
M = "turbustat/statistics/lm_seg.py: "


def data(rng, k, bad=True):
    n = rng.randint(6, 40)
    x = np.sort(rng.uniform(-2, 4, n)) if k % 3 else np.linspace(-1, 2, n)
    kind = k % 4
    b = rng.uniform(np.percentile(x, 20), np.percentile(x, 80))
    s1, s2 = rng.normal(size=2) * 2
    y = [1 + s1 * x + (s2 - s1) * np.clip(x - b, 0, None), 1 + s1 * x, rng.normal(size=n), np.exp(x) * s1][kind]
    y = y + rng.choice([1e-4, .05, .5]) * rng.normal(size=n)
    w = rng.rand(n) + .1 if rng.rand() < .5 else None
    if bad and rng.rand() < .5:
        x, y = x.copy(), y.copy()
        x[rng.randint(n)] = rng.choice([np.nan, np.inf])
        y[rng.randint(n)] = rng.choice([np.nan, np.inf, -np.inf])
    return x, y, w


def model(x, y, w, brk, line):
    cols = [np.ones(len(x)), x]
    if not line:
        cols += [np.clip(x - brk, 0, None), np.where(x < brk, 0., -1.)]
    X = np.array(cols).T
    s = np.ones(len(x)) if w is None else np.sqrt(w)
    return np.linalg.lstsq(X * s[:, None], y * s, rcond=None)[0], np.linalg.matrix_rank(X) == X.shape[1]


@check(M + "Lm_Seg", quick=80, bound="6-40 points in four shapes with noise, NaN, infinities and weights; starts over the whole range")
def fits(rng, k, hint):
    from turbustat.statistics.lm_seg import Lm_Seg
    x, y, w = data(rng, k)
    g = np.isfinite(x) & np.isfinite(y)
    xs, ys = x[g], y[g]
    ws = None if w is None else w[g]
    st = [xs.min(), xs.max(), rng.uniform(xs.min(), xs.max()), np.median(xs)][rng.randint(4)]
    fr = Frozen(x=x, y=y, w=w)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if len(xs) <= 3:
            return
        o = Lm_Seg(x, y, st, weights=w)
        o.fit_model(verbose=False)
        # points that cannot be used change nothing
        o2 = Lm_Seg(xs, ys, st, weights=ws)
        o2.fit_model(verbose=False)
    fr.check("Lm_Seg")
    need(xs.min() <= o.brk <= xs.max(), "break %r outside %r .. %r", o.brk, xs.min(), xs.max())
    need(o.brk == o2.brk and close(o.slopes, o2.slopes), "points with a coordinate that is not finite take part")
    line = len(o.slopes) == 1
    p, full = model(xs, ys, ws, o.brk, line)
    if full:
        want = p[1:2] if line else [p[1], p[1] + p[2]]
        need(close(o.slopes, want, 1e-4, 1e-5), "slopes %s instead of %s", o.slopes, want)
    if not line:
        e = o.fit.bse
        need(close(o.slope_errs, [e[1], np.hypot(e[1], e[2])], 1e-9), "slope errors")
        need(o.params[-1] == o.brk and len(o.params) == 5, "parameters")
    else:
        need(close(o.slope_errs, [o.fit.bse[1]], 1e-12), "slope error")


@check(M + "Lm_Seg.__init__", quick=40, bound="6-40 points with NaN, infinities and weights")
def refusals(rng, k, hint):
    from turbustat.statistics.lm_seg import Lm_Seg
    x, y, w = data(rng, k)
    g = np.isfinite(x) & np.isfinite(y)
    xs = x[g]
    d = rng.rand() * 3 + 1e-9
    for b in (xs.min() - d, xs.max() + d, np.nan, np.inf, -np.inf):
        expect(ValueError, "break %r for x from %r to %r" % (b, xs.min(), xs.max()), Lm_Seg, x, y, b)
    b = np.median(xs)
    expect(ValueError, "short weights", Lm_Seg, x, y, b, weights=np.ones(len(x) - 1))
    v = np.ones(len(x))
    v[rng.randint(len(x))] = rng.choice([np.nan, np.inf])
    expect(ValueError, "weights that are not finite", Lm_Seg, x, y, b, weights=v)
    z = y.copy()
    z[rng.permutation(len(x))[:len(x) - 3]] = np.nan
    expect((ValueError, Warning), "three points", Lm_Seg, x, z, b)


@check("turbustat/statistics: broken power laws of the wavelet and delta-variance fits", quick=6, thorough=40, bound="curves of 25 lags with a break")
def in_fits(rng, k, hint):
    import astropy.units as u
    from turbustat.statistics import Wavelet
    from .util import hdr2
    n = 25
    s = np.linspace(2, 30, n)
    b = rng.uniform(8, 20)
    s1, s2 = 2 + rng.rand(), rng.rand()
    v = np.where(s < b, s ** s1, b ** (s1 - s2) * s ** s2) * np.exp(.005 * rng.normal(size=n))
    o = Wavelet(rng.normal(size=(70, 70)), hdr2(), scales=s * u.pix)
    o._values, o._stddev = v, .01 * v
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o.fit_transform(brk=rng.uniform(7, 22) * u.pix)
    sl = np.atleast_1d(o.slope)
    if len(sl) == 2:
        need(2 <= o.brk.to(u.pix).value <= 30, "break %s outside the scales", o.brk)
        need(abs(o.brk.value - b) < 3 and abs(sl[0] - s1) < .3 and abs(sl[1] - s2) < .3, "break %s at %s, slopes %s for %s, %s", o.brk, b, sl, s1, s2)
