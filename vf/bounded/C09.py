"""Spectral correlation on real cubes, against its definition."""
import numpy as np
import astropy.units as u
from ..bcore import Violation, Known, registry
from .util import need, close, expect, image, hdr3, Frozen
CHECKS, check = registry()
M = "turbustat/statistics/scf/scf.py: "
U = "turbustat/statistics/stats_utils.py: "


def cube(rng, lo=4, hi=14):
    sh = (rng.randint(2, 7),) + tuple(rng.randint(lo, hi, 2))
    x = rng.normal(size=sh) + rng.choice([0, 2.])
    if rng.rand() < .3:
        x *= 10. ** rng.randint(-4, 5)
    if rng.rand() < .5:
        x[rng.rand(*sh) < .15] = np.nan
    if rng.rand() < .3:
        x[:, rng.randint(sh[1]), rng.randint(sh[2])] = np.nan
    if rng.rand() < .3:
        x[:, rng.randint(sh[1]), rng.randint(sh[2])] = 0.
    return x


def value(d, t):
    """definition: position by position"""
    tot, n = 0., 0
    for i in range(d.shape[1]):
        for j in range(d.shape[2]):
            p, q = d[:, i, j], t[:, i, j]
            both = ~np.isnan(p) & ~np.isnan(q)
            den = (p[~np.isnan(p)] ** 2).sum() + (q[~np.isnan(q)] ** 2).sum()
            if den > 0:
                tot += ((p[both] - q[both]) ** 2).sum() / den
                n += 1
    return 1 - np.sqrt(tot / n) if n else np.nan


def subshift(x, s, ax):
    """move by s pixels (periodic): whole pixels exactly, else by the phase factor
    of every frequency, missing where the moved mask exceeds one half"""
    if float(s).is_integer():
        return np.roll(x, int(s), axis=ax)
    bad = ~np.isfinite(x)
    z = np.where(bad, 0., x)
    f = np.fft.fftfreq(x.shape[ax])
    ph = np.exp(-2j * np.pi * f * s)
    sh = [1] * x.ndim
    sh[ax] = x.shape[ax]
    ph = ph.reshape(sh)
    y = np.real(np.fft.ifft(np.fft.fft(z, axis=ax) * ph, axis=ax))
    m = np.real(np.fft.ifft(np.fft.fft(bad, axis=ax) * ph, axis=ax)) > .5
    y[m] = np.nan
    return y


def make(rng, x, lags):
    from turbustat.statistics import SCF
    k = rng.randint(3)
    if k == 0:
        return SCF(x, hdr3(), roll_lags=lags * u.pix)
    if k == 1:
        return SCF(x, hdr3(), roll_lags=lags.copy())
    return SCF((x, hdr3()), roll_lags=lags * u.pix)


@check(M + "SCF.compute_surface (periodic)", quick=24, bound="cubes up to 6 x 13 x 13 with NaN and empty spectra, 3 to 5 whole or fractional lags")
def periodic(rng, k, hint):
    x = cube(rng)
    n = int(rng.choice([3, 5]))
    if k % 3:
        lags = np.sort(rng.choice(np.arange(-3, 4), n, replace=False)).astype(float)
    else:
        lags = np.array([-1.5, 0., 2.]) if k % 2 else np.array([-.75, 0., .75])
    if k % 4 == 1:
        lags = lags[::-1].copy()
    o = make(rng, x, lags)
    fr = Frozen(x=x, lags=lags)
    o.compute_surface(boundary="continuous", show_progress=False)
    fr.check("SCF")
    Z = o.scf_surface
    need(Z.shape == (len(lags),) * 2, "surface has shape %s for %d lags", Z.shape, len(lags))
    for i, sy in enumerate(lags):
        for j, sx in enumerate(lags):
            t = subshift(subshift(x, sx, 1), sy, 2)
            r = value(x, t)
            need(close(Z[i, j], r, 1e-6, 1e-9), "cube %s lags (%g, %g): %r, by definition %r", x.shape, sx, sy, Z[i, j], r)
            need(not Z[i, j] > 1, "above one")
            if sx == 0 and sy == 0:
                need(close(Z[i, j], 1.) or not np.nansum(np.abs(x)) > 0, "zero lag gives %r", Z[i, j])


@check(M + "SCF.compute_surface (scaling, opposite lags, size)", quick=10, bound="as above, symmetric whole lags 3 to 7")
def invariance(rng, k, hint):
    from turbustat.statistics import SCF
    x = cube(rng, 7)
    size = int(rng.choice([3, 4, 5, 7]))
    o = SCF(x, hdr3(), size=size)
    n = size - (size % 2 == 0)
    need(close(o.roll_lags.value, np.arange(n) - n // 2), "size %d gives lags %s", size, o.roll_lags)
    o.compute_surface(show_progress=False)
    Z = o.scf_surface
    need(close(Z, Z[::-1, ::-1], 1e-7, 1e-10), "opposite lags differ")
    for f in (-3.7, 1e-3, 250.):
        p = SCF(x * f, hdr3(), size=size)
        p.compute_surface(show_progress=False)
        need(close(p.scf_surface, Z, 1e-6, 1e-9), "changes when the cube is multiplied by %r", f)
    q = SCF(x, hdr3(), roll_lags=(np.arange(n) - n // 2) * .01 * u.deg)
    q.compute_surface(show_progress=False)
    if np.all(np.equal(np.mod(q._to_pixel(q.roll_lags).value, 1), 0)):
        need(close(q.scf_surface, Z, 1e-9), "lags in degrees give another surface")
    expect(ValueError, "unknown boundary", o.compute_surface, boundary="periodic", show_progress=False)
    o.compute_surface(show_progress=False)
    need(close(o.scf_surface, Z, 0), "second run differs")


def sl(s, n):
    return (slice(None, n + s), slice(-s, None)) if s < 0 else (slice(s, None), slice(None, n - s))


@check(M + "SCF.compute_surface (cut)", quick=16, bound="cubes up to 6 x 13 x 13 with NaN, 3 whole lags, lag well inside the map")
def cut_boundary(rng, k, hint):
    x = cube(rng, 8)
    lags = np.array([[-1., 0., 1.], [-2., 0., 2.], [-3., 0., 3.], [-1., 0., 2.]][k % 4])
    o = make(rng, x, lags)
    # the option may also arrive as an equal but distinct string
    o.compute_surface(boundary="cut", show_progress=False)
    Z = o.scf_surface
    old = None
    for i, sy in enumerate(lags.astype(int)):
        for j, sx in enumerate(lags.astype(int)):
            (xd, xt), (yd, yt) = sl(sx, x.shape[1]), sl(sy, x.shape[2])
            r = value(x[:, xd, yd], x[:, xt, yt])
            if close(Z[i, j], r, 1e-6, 1e-9):
                continue
            t = np.roll(np.roll(x, sx, 1), sy, 2)
            msg = "cube %s lags (%d, %d): %r, from the pairs inside the map %r" % (x.shape, sx, sy, Z[i, j], r)
            if close(Z[i, j], value(x[:, xd, yd], t[:, xt, yt]), 1e-6, 1e-9):
                old = msg
            else:
                raise Violation(msg)
    if old:
        raise Known("SCF-cut-double-lag", old)


@check(U + "fourier_shift, pixel_shift", quick=40, bound="1-D to 3-D arrays up to 15 a side with NaN, shifts -4..4")
def shifts(rng, k, hint):
    from turbustat.statistics.stats_utils import fourier_shift, pixel_shift
    nd = rng.randint(1, 4)
    x = rng.normal(size=tuple(rng.randint(4, 16, nd)))
    if rng.rand() < .5:
        x[rng.rand(*x.shape) < .1] = np.nan
    ax = rng.randint(nd)
    s = int(rng.randint(-4, 5))
    fr = Frozen(x=x)
    need(close(pixel_shift(x, s, axis=ax), np.roll(x, s, axis=ax)), "pixel_shift by %d along %d of %s", s, ax, x.shape)
    need(close(pixel_shift(x, float(s), axis=ax), np.roll(x, s, axis=ax)), "pixel_shift by a float")
    need(close(fourier_shift(x, s, axis=ax), np.roll(x, s, axis=ax), 1e-7, 1e-9), "fourier_shift by %d along %d of %s", s, ax, x.shape)
    f = s + .3
    need(close(fourier_shift(x, f, axis=ax), subshift(x, f, ax), 1e-7, 1e-9), "fourier_shift by %g", f)
    fr.check("shift")


@check(M + "SCF.compute_spectrum", quick=10, bound="5 or 7 lags of step 1 or 2 pixels or in degrees")
def spectrum(rng, k, hint):
    from turbustat.statistics import SCF
    x = cube(rng, 9, 16)
    n, step = int(rng.choice([5, 7])), float(rng.choice([1, 1, 2]))
    o = SCF(x, hdr3(), roll_lags=(np.arange(n) - n // 2) * step * u.pix)
    o.compute_surface(show_progress=False)
    o.compute_spectrum()
    Z = o.scf_surface
    yy, xx = np.mgrid[:n, :n] - n // 2
    r = np.hypot(yy, xx)
    lg = o.lags.to(u.pix).value
    need(close(lg, (np.arange(len(lg)) + .5 if not close(lg[0], 0.) else np.arange(len(lg))) * step, 1e-6) or
         close(np.diff(lg), np.full(len(lg) - 1, lg[1] - lg[0])), "lags %s not evenly spaced", lg)
    need(len(lg) == len(o.scf_spectrum) == len(o.scf_spectrum_stddev), "lengths differ")
    w = (lg[1] - lg[0]) / step
    for c, v in zip(lg / step, o.scf_spectrum):
        sel = (r >= c - w / 2 - 1e-9) & (r < c + w / 2 - 1e-9)
        if sel.any() and not np.isnan(v):
            need(Z[sel].min() - 1e-9 <= v <= Z[sel].max() + 1e-9, "profile value %r at lag %r outside the values there", v, c)
