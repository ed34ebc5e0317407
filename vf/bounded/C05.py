"""Radial profiles of real images against per-pixel membership."""
import numpy as np
import astropy.units as u
from ..bcore import Violation, Skip, registry
from .util import need, close, expect, image, hdr2, Frozen
CHECKS, check = registry()
P = "turbustat/statistics/psds.py: "


def grid(sh, freqs):
    if freqs:
        y = np.fft.fftshift(np.fft.fftfreq(sh[0]))[::-1]
        x = np.fft.fftshift(np.fft.fftfreq(sh[1]))
    else:
        y, x = np.arange(sh[0]) - sh[0] // 2, np.arange(sh[1]) - sh[1] // 2
    d = np.hypot(y[:, None], x[None, :])
    if freqs:
        d = np.where(d == 0, d[d > 0].min() / 2, d)
    return d


def wedge(sh, t0, dt):
    y, x = np.arange(sh[0]) - sh[0] // 2, np.arange(sh[1]) - sh[1] // 2
    th = np.arctan2(y[:, None] + 0 * x[None], x[None] + 0 * y[:, None])
    # angle from the axis, folded to (-pi, pi]
    off = np.abs((th - t0 + np.pi) % (2 * np.pi) - np.pi)
    edge = np.abs(off - dt / 2) < 1e-9
    m = off <= dt / 2
    if np.any(edge):
        raise Skip()
    m = m | m[::-1, ::-1]
    ny, nx = sh[0] // 2, sh[1] // 2
    m[ny - 1:ny + 1, nx - 1:nx + 1] = True
    return m


@check(P + "pspec", quick=150, bound="images 3..16 pixels a side with NaN and infinities, 1..9 bins, all bin options, wedges")
def profile(rng, k, hint):
    from turbustat.statistics.psds import pspec
    sh = tuple(int(v) for v in rng.randint(3, 17, 2))
    x = np.abs(image(rng, sh, nan=rng.choice([0, .2]))) * 10. ** rng.randint(-2, 3)
    if rng.rand() < .2:
        x[tuple(rng.randint(0, s) for s in sh)] = np.inf
    freqs, log, std = rng.rand() < .6, rng.rand() < .5, rng.rand() < .5
    d = grid(sh, freqs)
    kw = dict(return_freqs=freqs, logspacing=log, return_stddev=std)
    lo = 1. / min(sh) if freqs else .5
    hi = .5 if freqs else d.max()
    if rng.rand() < .4:
        lo = kw["min_bin"] = lo * rng.choice([.3, .7, 1.1])
    if rng.rand() < .4:
        hi = kw["max_bin"] = max(hi * rng.choice([.6, .8, 1.3]), lo * 1.5)
    y0, x0 = np.arange(sh[0]) - sh[0] // 2, np.arange(sh[1]) - sh[1] // 2
    nb = int(np.round(np.hypot(y0[:, None], x0[None]).max()) + 1)
    if rng.rand() < .8:
        nb = kw["nbins"] = int(rng.randint(1, 10))
    m = np.ones(sh, bool)
    wd = rng.rand() < .4
    if wd:
        t0, dt = rng.uniform(-4, 4), rng.choice([.2, .7, 1.5, 2.5])
        un = rng.choice(["rad", "deg"])
        kw["theta_0"], kw["delta_theta"] = (t0 * u.rad).to(un), (dt * u.rad).to(un)
        m = wedge(sh, t0, dt)
    fr = Frozen(x=x)
    out = pspec(x, **kw)
    fr.check("pspec")
    need(len(out) == 2 + std + wd, "%d results", len(out))
    e = np.geomspace(lo, hi, nb + 1) if log else np.linspace(lo, hi, nb + 1)
    need(close(out[0], (e[1:] + e[:-1]) / 2), "bin centres %s for edges %s", out[0], e)
    if wd:
        need(np.array_equal(out[-1], m), "wedge mask for theta %g width %g on %s", t0, dt, sh)
    near = np.min(np.abs(d.ravel()[:, None] - e[None]), axis=1).reshape(sh) < 1e-9
    ok = np.isfinite(x) & m
    for b in range(nb):
        inb = (d >= e[b]) & ((d < e[b + 1]) if b < nb - 1 else (d <= e[b + 1]))
        if np.any(near & (np.abs(d - e[b]) < 1e-9)) or np.any(near & (np.abs(d - e[b + 1]) < 1e-9)):
            continue
        v = x[inb & ok]
        got = out[1][b]
        if std and v.size <= 1:
            need(np.isnan(got) and np.isnan(out[2][b]), "bin %d with %d pixels reports %r, %r", b, v.size, got, out[2][b])
            continue
        ref = v.mean() if v.size else np.nan
        need(close(got, ref, 1e-7), "bin %d of %s (%s): %r, mean of its pixels is %r", b, sh, kw, got, ref)
        if std:
            from scipy.stats import t
            A = t.ppf(1 - .075, v.size - 1) / np.sqrt(v.size)
            need(close(out[2][b], v.std(ddof=1) * max(A, 1), 1e-7, 1e-12), "error of bin %d: %r, not %r", b, out[2][b], v.std(ddof=1) * max(A, 1))


@check("turbustat/statistics/base_pspec2.py: compute_radial_pspec", quick=24, bound="images 6..16 pixels a side, run through PowerSpectrum")
def attached(rng, k, hint):
    from turbustat.statistics import PowerSpectrum
    sh = tuple(int(v) for v in rng.randint(6, 17, 2))
    im = image(rng, sh, nan=0) + 3
    p = PowerSpectrum((im, hdr2()))
    p.compute_pspec()
    ref = np.fft.fftshift(np.abs(np.fft.fftn(im - 0))) ** 2
    kw = dict(logspacing=bool(rng.rand() < .5))
    if rng.rand() < .5:
        kw["max_bin"] = rng.uniform(.3, .5)
    p.compute_radial_pspec(**kw)
    d = grid(sh, True)
    need(p.ps2D.shape == sh, "shape of the power map")
    y = np.fft.fftshift(np.fft.fftfreq(sh[0]))
    z = np.fft.fftshift(np.fft.fftfreq(sh[1]))
    # the power map and the frequency grid belong together: compare with a direct binning of the transform
    d2 = np.hypot(y[:, None], z[None])
    d2 = np.where(d2 == 0, d2[d2 > 0].min() / 2, d2)
    nb = len(p.freqs)
    lo, hi = 1. / min(sh), kw.get("max_bin", .5)
    e = np.geomspace(lo, hi, nb + 1) if kw["logspacing"] else np.linspace(lo, hi, nb + 1)
    need(p.freqs.unit == 1 / u.pix and close(p.freqs.value, (e[1:] + e[:-1]) / 2), "frequencies")
    P2 = np.fft.fftshift(np.abs(np.fft.fftn(im)) ** 2)
    if not close(p.ps2D, P2[::-1], 1e-6, 1e-9 * P2.max()):
        raise Skip()
    for b in range(nb):
        if np.any(np.abs(d2 - e[b]) < 1e-9) or np.any(np.abs(d2 - e[b + 1]) < 1e-9):
            continue
        inb = (d2 >= e[b]) & (d2 < e[b + 1])
        if inb.sum() > 1:
            need(close(p.ps1D[b], P2[inb].mean(), 1e-6), "profile bin %d: %r, not %r", b, p.ps1D[b], P2[inb].mean())
        else:
            need(np.isnan(p.ps1D[b]) and np.isnan(p.ps1D_stddev[b]), "bin %d with %d pixels", b, inb.sum())
    # a power map with empty (zero) and missing frequencies
    q = rng.rand(*sh)
    q[rng.rand(*sh) < .3] = 0.
    if rng.rand() < .5:
        q[rng.rand(*sh) < .1] = np.nan
    if not hasattr(p, "_ps2D"):
        return
    p._ps2D = q.copy()
    if not close(p.ps2D, q[::-1]):
        return
    p.compute_radial_pspec(**kw)
    need(p._ps2D is not None and np.array_equal(p._ps2D, q, equal_nan=True), "the power map was changed")
    for b in range(nb):
        if np.any(np.abs(d2 - e[b]) < 1e-9) or np.any(np.abs(d2 - e[b + 1]) < 1e-9):
            continue
        inb = (d2 >= e[b]) & (d2 < e[b + 1])
        cand = []
        for Q in (q, q[::-1]):
            f = inb & np.isfinite(Q)
            cand.append(Q[f].mean() if f.sum() > 1 else np.nan)
        need(close(p.ps1D[b], cand[0], 1e-9) or close(p.ps1D[b], cand[1], 1e-9),
             "profile of a power map with zeros, bin %d: %r, not %r", b, p.ps1D[b], cand)


@check("turbustat/simulator/threeD_pspec.py: threeD_pspec", quick=20, bound="cubes 3..9 pixels a side")
def cube(rng, k, hint):
    from turbustat.simulator.threeD_pspec import threeD_pspec
    sh = tuple(int(v) for v in rng.randint(4, 10, 3))
    x = rng.normal(size=sh)
    f, p, s = threeD_pspec(x)
    P3 = np.abs(np.fft.fftn(x)) ** 2
    g = np.sqrt(sum(a ** 2 for a in np.meshgrid(*[np.fft.fftfreq(n) for n in sh], indexing="ij")))
    step = 1. / max(sh)
    e = np.arange(step, .5, step)
    need(close(f, e), "frequencies")
    for b in range(min(len(e), len(p))):
        up = e[b + 1] if b + 1 < len(e) else np.inf
        inb = (g >= e[b]) & (g < up)
        if np.any(np.abs(g - e[b]) < 1e-9) and not np.any(np.abs(g - e[b]) == 0) or np.any((np.abs(g - up) < 1e-9) & (g != up)):
            continue
        if inb.sum():
            need(close(p[b], P3[inb].mean(), 1e-7) and close(s[b], P3[inb].std(), 1e-7, 1e-9), "bin %d of %s: %r, not %r", b, sh, p[b], P3[inb].mean())
    expect(ValueError, "two-dimensional array", threeD_pspec, x[0])
