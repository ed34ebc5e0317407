"""Genus curves: run-time contracts."""
import warnings
import numpy as np
import astropy.units as u
from ..bcore import registry, Skip
from . import C23
from .util import need, close, expect, image, Frozen, hdr2
CHECKS, check = registry()
T = "turbustat/statistics/genus/genus.py: "


def regions(m, conn):
    """sizes of the connected regions of a mask (flood fill)"""
    m = np.array(m, bool)
    out = []
    near = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a or b) and (conn == 2 or not (a and b))]
    for s in zip(*np.nonzero(m)):
        if not m[s]:
            continue
        todo, n = [s], 0
        m[s] = False
        while todo:
            y, x = todo.pop()
            n += 1
            for a, b in near:
                p = (y + a, x + b)
                if 0 <= p[0] < m.shape[0] and 0 <= p[1] < m.shape[1] and m[p]:
                    m[p] = False
                    todo.append(p)
        out.append(n)
    return np.array(out, int)


def genus(img, t, size, conn):
    with np.errstate(invalid="ignore"):
        return int((regions(img > t, conn) >= size).sum()) - int((regions(img < t, conn) >= size).sum())


@check(T + "Genus.make_genus_curve", quick=24, bound="maps of 8-20 pixels a side with NaN, up to 6 thresholds and 3 radii")
def curves(rng, k, hint):
    from turbustat.statistics import Genus
    from astropy.convolution import Gaussian2DKernel, convolve_fft
    sh = tuple(rng.randint(8, 21, 2))
    x = image(rng, sh, nan=rng.choice([0, .1]))
    if rng.rand() < .3:
        x = np.round(x * 2)          # values that meet the thresholds exactly
    conn = int(rng.randint(1, 3))
    pix = rng.uniform(.01, .1)
    h = hdr2(pix=pix, shape=sh)
    smooth = bool(rng.randint(2))
    radii = rng.permutation([1., 1.5, 2.5])[:rng.randint(1, 4)] if smooth else None
    th = np.sort(rng.choice(x[np.isfinite(x)], rng.randint(1, 7)))
    how = k % 4
    size = int(rng.randint(1, 9))
    kw = dict(connectivity=conn) if rng.rand() < .7 else {}
    conn = kw.get("connectivity", 2)
    if how == 0:
        kw["enable_small_removal"] = False
        size = 1
    elif how == 1:
        kw["min_size"] = size
    elif how == 2:
        kw["min_size"] = (size + .3) * pix ** 2 * u.deg ** 2
    else:
        a, b = rng.uniform(1, 3.5, 2)
        h["BMAJ"], h["BMIN"], h["BPA"] = max(a, b) * pix, min(a, b) * pix, 0.
        kw["use_beam"] = True
        area = 2 * np.pi * a * b / (8 * np.log(2))
        if abs(area - round(area)) < 1e-6:
            raise Skip()
        size = int(area)
    fr = Frozen(x=x, th=th, kw=kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = Genus((x, h), thresholds=th, enable_smoothing=smooth, smoothing_radii=radii)
        o.make_genus_curve(keep_smoothed_images=True, **kw)
        tabs = o.make_genus_stats_table() if smooth else None
        ref = [convolve_fft(x, Gaussian2DKernel(r)) for r in radii] if smooth else [x]
    fr.check("make_genus_curve")
    need(o.genus_stats.shape == (len(ref), len(th)), "shape of the curves: %s", o.genus_stats.shape)
    for j, im in enumerate(ref):
        got = o.smoothed_images[j]
        need(close(got, im, 1e-9, 1e-9), "radius %d: smoothed image", j)
        need(close(o.smoothed_means[j], np.nanmean(im), 1e-8, 1e-10) and close(o.smoothed_stds[j], np.nanstd(im), 1e-8, 1e-10),
             "radius %d: mean and spread", j)
        want = [genus(got, t, size, conn) for t in th]
        need(list(o.genus_stats[j]) == want, "options %s, radius %d: %s instead of %s", sorted(kw), j, list(o.genus_stats[j]), want)
    if smooth:
        need(len(tabs) == len(radii), "%d tables for %d radii", len(tabs), len(radii))
        for j, t in enumerate(tabs):
            need(close(t["thresholds"], th) and close(t["genus_value"], o.genus_stats[j]) and
                 bool(np.all(np.asarray(t["smooth_radius"]) == radii[j])), "table of radius %d", j)


@check(T + "Genus.__init__", quick=40, bound="maps of 8-20 pixels a side with NaN, with and without units")
def thresholds(rng, k, hint):
    from turbustat.statistics import Genus
    sh = tuple(rng.randint(8, 21, 2))
    x = image(rng, sh, nan=rng.choice([0, .1])) * 3 + 1
    n = int(rng.randint(2, 30))
    kw = dict(numpts=n, enable_smoothing=False)
    lo, hi = np.nanmin(x), np.nanmax(x)
    un = u.K if k % 3 == 0 else 1
    a, b = np.sort(rng.uniform(lo - 1, hi + 1, 2))
    pl, ph = np.sort(rng.uniform(1, 99, 2))
    c = k % 16
    if c & 1:
        kw["min_value"] = (a * un).to(u.mK) if un is not 1 else a
        lo = a
    if c & 2:
        kw["max_value"] = (b * un).to(u.mK) if un is not 1 else b
        hi = b
    if c & 4:
        kw["lowdens_percent"] = pl
        p = np.nanpercentile(x, pl)
        lo = max(p, lo) if c & 1 else p
    if c & 8:
        kw["highdens_percent"] = ph
        p = np.nanpercentile(x, ph)
        hi = min(p, hi) if c & 2 else p
    if un is 1:
        o = Genus((x, hdr2(shape=sh)), **kw)
        t = o.thresholds
    else:
        o = Genus((x * un, hdr2(shape=sh)), **kw)
        t = u.Quantity(o.thresholds).to_value(u.K)
        expect(TypeError, "max_value without unit", Genus, (x * un, hdr2(shape=sh)), max_value=1.)
        expect(TypeError, "min_value without unit", Genus, (x * un, hdr2(shape=sh)), min_value=1.)
        expect(u.UnitsError, "max_value in s", Genus, (x * un, hdr2(shape=sh)), max_value=1. * u.s)
    need(close(t, np.linspace(lo, hi, n), 1e-9, 1e-9), "%s: thresholds from %r to %r (%d) instead of %r to %r (%d)",
         sorted(kw), t[0], t[-1], len(t), lo, hi, n)


@check(T + "remove_small_objects", quick=40, bound="masks of 3-20 pixels a side")
def small_regions(rng, k, hint):
    from turbustat.statistics.genus.genus import remove_small_objects
    m = rng.rand(*rng.randint(3, 21, 2)) < rng.uniform(.2, .7)
    conn, size = int(rng.randint(1, 3)), int(rng.randint(1, 9))
    fr = Frozen(m=m)
    r = remove_small_objects(m, size, connectivity=conn)
    fr.check("remove_small_objects")
    want = regions(m, conn)
    need(sorted(regions(r, conn)) == sorted(want[want >= size]) and not (r & ~m).any(), "regions of at least %d pixels", size)


@check(T + "Genus_Distance", quick=4, bound="maps of 24 pixels a side")
def comparison(rng, k, hint):
    from turbustat.statistics import Genus_Distance, Genus
    x, y = image(rng, (24, 24)) * 3 + 1, image(rng, (24, 24))
    n = int(rng.randint(10, 30))
    h = hdr2(shape=x.shape)
    o = Genus_Distance((x, h), (y, h), numpts=n, lowdens_percent=[10, 20], highdens_percent=90, genus_kwargs=dict(min_size=2))
    for g, d, p in ((o.genus1, x, 10), (o.genus2, y, 20)):
        z = (d - d.mean()) / d.std()
        r = Genus((z, h), numpts=n, lowdens_percent=p, highdens_percent=90).run(min_size=2)
        need(close(g.thresholds, r.thresholds, 1e-9, 1e-9) and np.array_equal(g.genus_stats, r.genus_stats),
             "the comparison does not use the requested thresholds and standardised maps")


check(T + "Genus.smoothing_radii", quick=40, bound="maps 8..21 pixels a side, 1..4 radii at and around the limits")(C23.smoothing)
