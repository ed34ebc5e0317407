"""Delta-variance on real images, against its definition."""
import numpy as np
import astropy.units as u
from ..bcore import Violation, registry
from .util import need, close, expect, image, hdr2, Frozen
CHECKS, check = registry()
M = "turbustat/statistics/delta_variance/delta_variance.py: "
K = "turbustat/statistics/delta_variance/kernels.py: "


def ref_delvar(a, w, lag):
    ok = ~np.isnan(a) & ~np.isnan(w)
    d = a - np.nanmean(a)
    W = w[ok].sum()
    v = (w * d ** 2)[ok].sum() / W
    q = (w * d ** 4)[ok].sum() / W - v ** 2
    area = int(np.ceil(.5 * np.pi * np.log(2) * lag ** 2))
    return v, np.sqrt(q) / np.sqrt((~np.isnan(a)).sum() // area)


@check(M + "_delvar", quick=100, bound="maps up to 30 x 30 with NaN in map and weights, lags 1..8")
def delvar(rng, k, hint):
    from turbustat.statistics.delta_variance.delta_variance import _delvar
    sh = tuple(rng.randint(4, 31, 2))
    a = image(rng, sh, nan=rng.choice([0, .2])) * 10. ** rng.randint(-3, 4)
    w = rng.rand(*sh)
    if rng.rand() < .5:
        w[rng.rand(*sh) < .2] = np.nan
        if rng.rand() < .5:
            a[np.isnan(w)] = np.nan
    if rng.rand() < .3:
        w[rng.rand(*sh) < .2] = 0.
    lag = rng.uniform(1, 8)
    fr = Frozen(a=a, w=w)
    v, e = _delvar(a, w, lag)
    rv, re = ref_delvar(a, w, lag)
    need(close(v, rv, 1e-7), "delta variance %r, weighted variance is %r (shape %s lag %r)", v, rv, sh, lag)
    need(close(e, re, 1e-6), "error %r, expected %r (shape %s lag %r)", e, re, sh, lag)
    need(v >= 0 and not e < 0, "negative")
    s = np.nanstd(a)
    need(close(_delvar(a + 3 * s, w, lag)[0], v, 1e-6), "changes when a constant is added")
    need(close(_delvar(a * -2.5, w, lag)[0], v * 6.25, 1e-7), "does not scale with the square")
    fr.check("_delvar")


@check(M + "DeltaVariance.compute_deltavar, lags", quick=16,
       bound="images 16..28 a side with NaN, 2..5 lags in pixel or degree, weights, both boundaries, NaN treatments, preserve_nan")
def curve(rng, k, hint):
    from turbustat.statistics import DeltaVariance
    from astropy.convolution import convolve_fft, Gaussian2DKernel
    sh = tuple(rng.randint(16, 29, 2))
    x = image(rng, sh, nan=rng.choice([0, .05])) + rng.choice([0, 4.])
    w = None if rng.rand() < .5 else rng.rand(*sh) + (0 if rng.rand() < .5 else .2)
    L = np.sort(rng.uniform(1.2, min(sh) / 2., rng.randint(2, 6)))
    if k % 3 == 2:
        L = L[::-1].copy()
    ratio = float(rng.choice([1.5, 2., 1.2]))
    bd = ["wrap", "fill"][k % 2]
    nt = "fill" if rng.rand() < .7 else "interpolate"
    pn = rng.rand() < .4
    frac = float(rng.choice([.01, .3]))
    fr = Frozen(x=x, w=w, L=L)
    mode = rng.randint(3)
    if mode == 0:
        o = DeltaVariance(x, hdr2(), weights=w, lags=L * u.pix, diam_ratio=ratio)
    elif mode == 1:
        o = DeltaVariance(x, hdr2(), weights=w, lags=L * .01 * u.deg, diam_ratio=ratio)
    else:
        o = DeltaVariance(x, hdr2(), weights=w, diam_ratio=ratio)
        o.lags = L * .01 * u.deg
    o.compute_deltavar(boundary=bd, nan_treatment=nt, preserve_nan=pn, min_weight_frac=frac, show_progress=False)
    what = "image %s lags %s (%s) boundary %s nan_treatment %s preserve %s weights %s" % (
        sh, L.tolist(), ["pix", "deg", "deg by setter"][mode], bd, nt, pn, w is not None)
    need(o.delta_var.shape == L.shape and o.delta_var_error.shape == L.shape, "%s: %s values", what, o.delta_var.shape)
    W = np.isfinite(x).astype(float) if w is None else w
    for n, lag in enumerate(L):
        sd = lag / (2 * np.sqrt(2))
        core = Gaussian2DKernel(sd)
        size = int(np.ceil(8 * sd))
        size += 1 - size % 2
        y, xx = np.mgrid[:size, :size] - size // 2
        r2 = (y ** 2 + xx ** 2)
        ann = np.exp(-r2 / (2 * (ratio * sd) ** 2)) - np.exp(-r2 / (2 * sd ** 2))
        p = int(lag) if bd == "fill" else 0
        pw = np.pad(W, p)
        pi = np.pad(x, p) * pw
        kw = dict(boundary=bd, fill_value=0. if nt == "fill" else np.nan, nan_treatment=nt, normalize_kernel=True)
        ic, ia = convolve_fft(pi, core, **kw), convolve_fft(pi, ann, **kw)
        wc, wa = convolve_fft(pw, core, **kw), convolve_fft(pw, ann, **kw)
        cut = frac * W.max()
        if np.any(np.abs(wc - cut) < 1e-9 * W.max()) or np.any(np.abs(wa - cut) < 1e-9 * W.max()):
            continue
        wc[wc <= cut] = np.nan
        wa[wa <= cut] = np.nan
        d = ic / wc - ia / wa
        if pn:
            d[np.isnan(pi)] = np.nan
        v, e = ref_delvar(d, wc * wa, lag)
        if v <= 0 or e <= 0 or np.isnan(v) or np.isnan(e):
            v = e = np.nan
        g, ge = o.delta_var[n], o.delta_var_error[n]
        need(np.isnan(g) == np.isnan(ge), "%s: lag %d value %r error %r", what, n, g, ge)
        need(close(g, v, 1e-5) and close(ge, e, 1e-4), "%s: lag number %d gives %r +- %r, definition gives %r +- %r", what, n, g, ge, v, e)
    fr.check(what)
    expect(ValueError, "boundary 'reflect'", o.compute_deltavar, boundary="reflect", show_progress=False)


@check(M + "DeltaVariance.compute_deltavar", quick=4, bound="constant images: no variance")
def degenerate(rng, k, hint):
    from turbustat.statistics import DeltaVariance
    sh = tuple(rng.randint(14, 20, 2))
    o = DeltaVariance(np.zeros(sh), hdr2(), lags=np.array([2., 4.]) * u.pix)
    o.compute_deltavar(show_progress=False)
    need(np.all(np.isnan(o.delta_var)) and np.all(np.isnan(o.delta_var_error)), "a map without variance gives %s +- %s",
         o.delta_var, o.delta_var_error)
    # fewer valid pixels than the kernel covers: no independent pixel
    im = rng.normal(size=(20, 20))
    im[:, 3:] = np.nan
    o = DeltaVariance(im, hdr2(), lags=np.array([2., 10.]) * u.pix)
    o.compute_deltavar(show_progress=False, preserve_nan=True)
    need(np.isnan(o.delta_var[1]) and np.isnan(o.delta_var_error[1]), "a lag without an independent pixel gives %s +- %s",
         o.delta_var[1], o.delta_var_error[1])
    need(np.all(np.isfinite(o.delta_var[:1])) and np.all(o.delta_var_error[:1] > 0), "a usable lag is missing: %s", o.delta_var)


@check(K + "core_kernel, annulus_kernel, AnnulusKernel, GaussianAnnulus2D", quick=25, bound="lags 1.5..20, ratios 1.1..3")
def kernels(rng, k, hint):
    from turbustat.statistics.delta_variance.kernels import core_kernel, annulus_kernel
    lag, ratio = rng.uniform(1.5, 20), rng.uniform(1.1, 3.)
    sd = lag / (2 * np.sqrt(2))
    c, a = core_kernel(lag, 10, 12), annulus_kernel(lag, ratio, 10, 12)
    for nm, kk in (("core", c), ("annulus", a)):
        A = kk.array
        need(A.shape[0] == A.shape[1] and A.shape[0] % 2 == 1, "%s kernel shape %s", nm, A.shape)
        need(np.allclose(A, A[::-1]) and np.allclose(A, A[:, ::-1]) and np.allclose(A, A.T), "%s kernel is not symmetric", nm)
        n = A.shape[0] // 2
        y, x = np.mgrid[-n:n + 1, -n:n + 1]
        r2 = y ** 2 + x ** 2
        s = np.exp(-r2 / (2 * sd ** 2))
        if nm == "annulus":
            s = np.exp(-r2 / (2 * (ratio * sd) ** 2)) - s
        need(np.allclose(A / A.sum(), s / s.sum(), rtol=1e-6, atol=1e-12), "%s kernel for lag %r ratio %r has another profile", nm, lag, ratio)
    if sd > 1.5:
        need(abs(c.array.sum() - 1) < 0.02, "core kernel integrates to %r", c.array.sum())
    R = int(np.ceil(9 * ratio * sd))
    y, x = np.mgrid[-R:R + 1, -R:R + 1]
    if sd > 1.:
        need(abs(a.model(x, y).sum() - 1) < 1e-3, "annulus integrates to %r over the plane", a.model(x, y).sum())
