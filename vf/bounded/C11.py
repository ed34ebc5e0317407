"""Histograms, PDFs and normalisations on real arrays."""
import numpy as np
import astropy.units as u
from ..bcore import Violation, registry, bare
from .util import need, close, expect, image, hdr2, Frozen
CHECKS, check = registry()
U = "turbustat/statistics/stats_utils.py: "
D = "turbustat/statistics/pdf/compare_pdf.py: "


def vals(rng, nd, nan=True):
    sh = tuple(rng.randint(1 if nd > 1 else 2, 9, nd))
    x = rng.normal(rng.uniform(-3, 3), rng.choice([1e-3, 1., 50.]), size=sh)
    if nan and rng.rand() < .7:
        x[rng.rand(*sh) < rng.choice([.1, .5])] = np.nan
    f = x.reshape(-1)
    if np.isfinite(f).sum() < 2:
        f[:2] = [1.25, 3.5] if f.size > 1 else 1.
    return x


@check(U + "standardize, center, normalize, normalize_by_mean, data_normalization", quick=120,
       bound="1- to 3-D arrays up to 8 a side, with and without NaN, location -3..3, scale 1e-3..50")
def normalisations(rng, k, hint):
    from turbustat.statistics import stats_utils as su
    x = vals(rng, 1 + k % 3)
    if np.nanmax(x) == np.nanmin(x):
        return
    fr = Frozen(x=x)
    m, s, lo, hi = np.nanmean(x), np.nanstd(x), np.nanmin(x), np.nanmax(x)
    for n, ref in (("standardize", (x - m) / s), ("center", x - m), ("normalize", (x - lo) / (hi - lo)),
                   ("normalize_by_mean", x / m)):
        for y in (getattr(su, n)(x), su.data_normalization(x, norm_type=n)):
            need(y.shape == x.shape, "%s changes the shape", n)
            need(np.allclose(y, ref, rtol=1e-6, atol=1e-8 * np.nanmax(np.abs(ref)), equal_nan=True),
                 "%s of %s gives %s", n, x.tolist(), y.tolist())
        t = 1e-6 * max(np.nanmax(np.abs(x)) / s, 1.)
        if n == "standardize":
            need(abs(np.nanmean(y)) < t and abs(np.nanstd(y) - 1) < t, "standardize: mean %r spread %r", np.nanmean(y), np.nanstd(y))
        if n == "center":
            need(abs(np.nanmean(y)) < 1e-9 * np.nanmax(np.abs(x)), "center: mean %r", np.nanmean(y))
        if n == "normalize":
            need(np.nanmin(y) == 0 and abs(np.nanmax(y) - 1) < 1e-12, "normalize: range %r to %r", np.nanmin(y), np.nanmax(y))
        if n == "normalize_by_mean" and abs(m) > 1e-3 * s:
            need(abs(np.nanmean(y) - 1) < 1e-6, "normalize_by_mean: mean %r", np.nanmean(y))
    fr.check("normalisation")


@check(U + "data_normalization", quick=4, bound="six unknown names")
def unknown(rng, k, hint):
    from turbustat.statistics.stats_utils import data_normalization
    x = vals(rng, 2)
    for n in ("Standardize", "none", "", None, "z-score", "normalise"):
        expect(ValueError, "normalisation named %r" % (n,), data_normalization, x, norm_type=n)


@check(U + "common_histogram_bins", quick=150, bound="vectors of 2..400 values with NaN; optional limits, bin number, log scale")
def common_bins(rng, k, hint):
    from turbustat.statistics.stats_utils import common_histogram_bins as chb
    log = k % 4 == 3
    d = [rng.normal(rng.uniform(-2, 2), 3, size=rng.choice([2, 5, 30, 400])) for _ in range(2)]
    if log:
        d = [np.exp(v / 3) for v in d]
    for v in d:
        if rng.rand() < .5:
            v[rng.randint(v.size)] = np.nan
        if v.size == 2:
            v[:] = [1.0, 2.5]
    kw = {}
    lo, hi = min(map(np.nanmin, d)), max(map(np.nanmax, d))
    w = hi - lo
    if rng.rand() < .4:
        kw["min_val"] = lo + rng.uniform(-.3, .4) * w
        if rng.rand() < .4:
            kw["min_val"] = rng.choice([0., np.ceil(kw["min_val"])])
        if log and kw["min_val"] <= 0:
            kw["min_val"] = lo * 1.1
        lo = max(lo, kw["min_val"])
    if rng.rand() < .4:
        kw["max_val"] = hi + rng.uniform(-.4, .3) * w
        if rng.rand() < .4:
            kw["max_val"] = rng.choice([0., np.floor(kw["max_val"])])
        hi = min(hi, kw["max_val"])
    if not lo < hi:
        return
    if rng.rand() < .5:
        kw["nbins"] = int(rng.randint(2, 40))
    n = kw.get("nbins") or int(np.floor(np.sqrt((d[0].size + d[1].size) / 2.)))
    if n < 2:
        return
    fr = Frozen(a=d[0], b=d[1])
    b = chb(d[0], d[1], logscale=log, **kw)
    b2, c = chb(d[0], d[1], logscale=log, return_centered=True, **kw)
    what = "common bins of %d and %d values, %s%s" % (d[0].size, d[1].size, kw, ", log" if log else "")
    need(np.array_equal(b, b2), "%s: differ between calls", what)
    need(b.shape == (n,), "%s: %d edges, not %d", what, b.size, n)
    need(close(b[0], lo, 1e-9, 1e-9) and close(b[-1], hi, 1e-9, 1e-9), "%s: span %r..%r, not %r..%r", what, b[0], b[-1], lo, hi)
    need(np.all(np.diff(b) > 0), "%s: not increasing", what)
    need(close(c, (b[1:] + b[:-1]) / 2), "%s: centres are not midpoints", what)
    ref = np.logspace(np.log10(lo), np.log10(hi), n) if log else np.linspace(lo, hi, n)
    need(np.allclose(b, ref, rtol=1e-8, atol=1e-9 * w), "%s: not evenly spaced", what)
    fr.check(what)
    expect(ValueError, "2-D input to common bins", chb, np.ones((2, 2)), d[1])


@check(D + "PDF", quick=100, bound="2-D and 3-D maps up to 12 a side, threshold, weights, every normalisation, given or default bins")
def pdf(rng, k, hint):
    from turbustat.statistics import PDF
    nd = 2 + (k % 5 == 4)
    sh = tuple(rng.randint(3, 13, nd))
    x = rng.normal(rng.uniform(-1, 3), rng.choice([.5, 2.]), size=sh)
    if rng.rand() < .6:
        x[rng.rand(*sh) < .2] = np.nan
    if rng.rand() < .3:
        x.flat[rng.randint(x.size)] = np.inf
    wt = None
    if rng.rand() < .4:
        wt = rng.uniform(.2, 2., size=sh)
        if rng.rand() < .5:
            wt[rng.rand(*sh) < .2] = np.nan
        if rng.rand() < .4:
            wt[rng.rand(*sh) < .2] = rng.choice([0., -.5])
    mv = -np.inf if rng.rand() < .4 else float(np.nanpercentile(x[np.isfinite(x)], rng.choice([5, 30, 60])))
    if rng.rand() < .25 and np.isfinite(mv):
        mv = float(x[np.isfinite(x)].flat[0])          # a value of the map itself
    keep = np.isfinite(x) & (x > mv)
    if wt is not None:
        keep &= np.isfinite(wt)
    v = x[keep] if wt is None else x[keep] * wt[keep]
    if v.size < 4 or v.max() == v.min():
        return
    norm = [None, "standardize", "center", "normalize", "normalize_by_mean"][rng.randint(5)]
    ref = v
    if norm == "standardize":
        ref = (v - v.mean()) / v.std()
    elif norm == "center":
        ref = v - v.mean()
    elif norm == "normalize":
        ref = (v - v.min()) / (v.max() - v.min())
    elif norm == "normalize_by_mean":
        ref = v / v.mean()
    what = "PDF shape %s min_val %r norm %r weights %s" % (sh, mv, norm, wt is not None)
    given = None
    if rng.rand() < .5:
        given = np.linspace(ref.min() - .1, ref.max() + .1, rng.randint(3, 15))
    fr = Frozen(x=x, w=wt, b=given)
    o = PDF(x, min_val=mv, weights=wt, normalization_type=norm, bins=given)
    need(o.normalization_type == (norm if norm else o.normalization_type), "%s: type %r", what, o.normalization_type)
    got = np.sort(np.asarray(o.data).ravel())
    need(np.allclose(got, np.sort(ref), rtol=1e-7, atol=1e-9), "%s: kept %d values, expected %d finite values above the threshold",
         what, got.size, ref.size)
    o.make_pdf()
    b, p = o.bins, o.pdf
    if given is not None:
        e = given
    else:
        e = np.linspace(ref.min(), ref.max(), int(round(np.sqrt(ref.size))) + 1)
        need(p.size >= 1, "%s: no bins", what)
        e = np.linspace(ref.min(), ref.max(), p.size + 1)
    need(b.size == e.size - 1 and np.allclose(b, (e[1:] + e[:-1]) / 2, rtol=1e-7, atol=1e-9), "%s: centres are not the midpoints of the edges", what)
    cnt = np.histogram(ref, e)[0].astype(float)
    need(abs((p * np.diff(e)).sum() - 1) < 1e-8, "%s: density integrates to %r", what, (p * np.diff(e)).sum())
    need(np.allclose(p, cnt / cnt.sum() / np.diff(e), atol=2.01 / cnt.sum() / np.diff(e).min()), "%s: density", what)
    o.make_ecdf()
    c = o.ecdf
    need(np.all(np.diff(c) >= 0) and c.min() >= 0 and c.max() <= 1, "%s: cumulative distribution %s", what, c)
    cr = (ref[None, :] <= b[:, None] * (1 + 1e-15)).mean(1)
    need(np.allclose(c, cr, atol=2.01 / ref.size), "%s: cumulative distribution is not the fraction of values up to each bin", what)
    q = o.find_percentile(np.array([ref.min() - 1, np.median(ref), ref.max() + 1]))
    need(abs(q[0]) < 1e-9 and abs(q[2] - 100) < 1e-9 and 100. * ((ref < np.median(ref)).mean() - 1. / ref.size) <= q[1] <=
         100. * ((ref <= np.median(ref)).mean() + 1. / ref.size), "%s: percentiles %s", what, q)
    t = o.find_at_percentile(np.array([0, 10., 50, 90, 100]))
    need(np.all(np.diff(t) >= 0) and close(t[0], ref.min(), 1e-7, 1e-9) and close(t[-1], ref.max(), 1e-7, 1e-9), "%s: values at percentiles %s", what, t)
    for bad in (-1e-3, 100.5, np.array([5, 101.]), np.array([-3, 50.])):
        expect(ValueError, "percentile %r" % (bad,), o.find_at_percentile, bad)
    fr.check(what)


@check("turbustat/statistics/stat_moments/highstatmoments.py: StatMoments.make_spatial_histograms", quick=30, bound="maps up to 15 a side with NaN, bins given or not")
def moment_histograms(rng, k, hint):
    from turbustat.statistics import StatMoments
    o = bare(StatMoments)
    sh = tuple(rng.randint(3, 16, 2))
    maps, kw, names = {}, {}, ("mean", "variance", "skewness", "kurtosis")
    for n in names:
        m = rng.normal(rng.normal(), rng.uniform(.5, 2), sh)
        m[rng.rand(*sh) < .2] = np.nan
        m[0, 0], m[1, 1] = 0., 1.
        maps[n] = m
        setattr(o, "_%s_array" % n, m)
        if rng.rand() < .5:
            kw[n + "_bins"] = np.linspace(-2, 2, rng.randint(3, 9)) if rng.rand() < .6 else np.sort(np.append(rng.uniform(-2, 2, 5), [-3, 3]))
    o.nbins = int(rng.randint(2, 12))
    fr = Frozen(**maps)
    o.make_spatial_histograms(**kw)
    for n in names:
        v = maps[n][np.isfinite(maps[n])]
        e = kw.get(n + "_bins", np.linspace(v.min(), v.max(), o.nbins + 1))
        c = np.array([((v >= p) & (v < q)).sum() for p, q in zip(e[:-1], e[1:])], float)
        c[-1] += (v == e[-1]).sum()
        cen, den = getattr(o, n + "_hist")
        need(close(cen, (e[1:] + e[:-1]) / 2), "%s: centres %s of bins %s", n, cen, e)
        need(abs((den * np.diff(e)).sum() - 1) < 1e-9 and close(den, c / c.sum() / np.diff(e), 1e-6), "%s: density %s of counts %s", n, den, c)
    fr.check("make_spatial_histograms")


@check("turbustat/statistics/dendrograms/mecdf.py: mecdf", quick=40, bound="count tables up to 6 x 12")
def mecdf(rng, k, hint):
    from turbustat.statistics.dendrograms.mecdf import mecdf as f
    a = rng.randint(0, 9, size=(rng.randint(1, 7), rng.randint(1, 13)))
    a[:, 0] += 1
    fr = Frozen(a=a)
    e = f(a)
    need(e.shape == a.shape, "shape")
    need(np.allclose(e, np.cumsum(a, 1) / a.sum(1, keepdims=True).astype(float)), "mecdf of %s: %s", a.tolist(), e.tolist())
    need(np.all(np.diff(e, axis=1) >= -1e-12) and np.allclose(e[:, -1], 1) and e.min() >= 0, "not a cumulative distribution")
    fr.check("mecdf")
