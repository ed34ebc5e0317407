"""Principal components: run-time contracts."""
import warnings
import numpy as np
import astropy.units as u
from ..bcore import registry, Skip, bare
from .util import need, close, expect, image, Frozen, hdr3
CHECKS, check = registry()
P = "turbustat/statistics/pca/pca.py: "
W = "turbustat/statistics/pca/width_estimate.py: "
EPS = np.finfo(float).eps


def cube(rng, nan=None, sh=None):
    sh = sh or (rng.randint(2, 9), rng.randint(3, 11), rng.randint(3, 11))
    x = rng.normal(size=sh) + rng.rand() * 2
    x *= np.exp(-.5 * ((np.arange(sh[0]) - sh[0] / 2.) / max(1, sh[0] / 4.)) ** 2)[:, None, None]
    if nan if nan is not None else rng.rand() < .6:
        x[rng.rand(*sh) < .1] = np.nan
    return x


def cov(x, ms):
    n = len(x)
    r = np.zeros((n, n))
    for i in range(n):
        a = x[i].ravel()
        a = np.where(np.isnan(a), EPS, a)
        if ms:
            a = a - a.mean()
        for j in range(i):
            b = x[j].ravel()
            ok = np.isfinite(b)
            if ms and ok.any():
                b = b - b[ok].mean()
            d = ok.sum() - ms
            v = (a[ok] * b[ok]).sum() / d if d else np.nan
            r[i, j] = r[j, i] = v if np.isfinite(v) else 0
        r[i, i] = (a * a).sum() / (a.size - ms)
    return r


@check("turbustat/statistics/threeD_to_twoD.py: var_cov_cube", quick=40, bound="cubes up to 8 x 10 x 10 with NaN")
def covariance(rng, k, hint):
    from turbustat.statistics.threeD_to_twoD import var_cov_cube
    x = cube(rng)
    ms = bool(rng.randint(2))
    fr = Frozen(x=x)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = var_cov_cube(x, mean_sub=ms, progress_bar=False)
    fr.check("var_cov_cube")
    need(np.array_equal(r, r.T), "not symmetric")
    need(close(r, cov(x, ms), 1e-7, 1e-10 * np.nanmax(abs(x)) ** 2), "mean_sub=%s: not the averaged products of the channels", ms)


@check(P + "PCA.compute_pca, set_n_eigs", quick=40, bound="cubes up to 8 x 10 x 10, every criterion")
def decomposition(rng, k, hint):
    from turbustat.statistics import PCA
    x = cube(rng)
    n = len(x)
    ms = bool(rng.randint(2))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = PCA((x, hdr3(shape=x.shape)))
        val = np.linalg.eigvalsh(cov(x, ms))[::-1]
        tol = 1e-7 * abs(val).max()
        how = ("value", "proportion", "all", "given", "bad")[k % 5]
        if how == "value":
            q = rng.randint(n)
            m = (val[q] + (val[q + 1] if q + 1 < n else val[q] * .9 - 2 * tol)) / 2
            o.compute_pca(mean_sub=ms, n_eigs="auto", min_eigval=m, eigen_cut_method="value", show_progress=False)
            kept = int((val >= m).sum())
            if np.min(abs(val - m)) < tol:
                raise Skip()
        elif how == "proportion":
            m = rng.rand() * .98 + .01
            cum = np.cumsum(val / val.sum())
            if np.min(abs(cum - m)) < 1e-6:
                raise Skip()
            o.compute_pca(mean_sub=ms, n_eigs="auto", min_eigval=m, eigen_cut_method="proportion", show_progress=False)
            kept = max(1, int((cum <= m).sum()))
        elif how == "all":
            o.compute_pca(mean_sub=ms, n_eigs=-1, show_progress=False)
            kept = n
        elif how == "given":
            kept = rng.randint(1, n + 1)
            o.compute_pca(mean_sub=ms, n_eigs=kept, show_progress=False)
        else:
            for bad in (0, n + 1, -2, "auto"):
                expect((ValueError, Warning), "n_eigs=%r" % bad, o.compute_pca, mean_sub=ms, n_eigs=bad, show_progress=False)
            return
    need(o.n_eigs == kept, "%s: %r components instead of %d", how, o.n_eigs, kept)
    need(close(o.eigvals, val, 1e-7, tol), "eigenvalues")
    need(bool((np.diff(o.eigvals) <= tol).all()), "not in decreasing order")
    c = cov(x, ms)
    need(close(c.dot(o.eigvecs), o.eigvecs * o.eigvals, 1e-6, 1e-6 * abs(val).max()), "eigenvectors do not match the eigenvalues")
    lo = 0 if ms else 1
    need(close(o.total_variance, val[lo:].sum(), 1e-6, tol * n), "total variance")
    if abs(o.total_variance) > 1e-3 * val[0]:
        need(close(o.var_proportion, val[lo:kept].sum() / val[lo:].sum(), 1e-5, 1e-6), "proportion of the retained components")
    f = o.eigvecs
    y = x - np.nanmean(x, (1, 2))[:, None, None] if ms else x
    img = np.einsum("cij,ck->kij", np.nan_to_num(y), f[:, :kept])
    got = o.eigimages()
    need(got.shape == (img.shape if kept > 1 else img.shape[1:]), "shape of the eigenimages: %s", got.shape)
    need(close(got, img if kept > 1 else img[0], 1e-7, 1e-9 * abs(img).max()), "eigenimages")
    valid = np.where(o.eigvals >= EPS)[0]
    m = rng.randint(1, 4)
    if len(valid) and np.min(abs(o.eigvals)) > 1e-12:
        nz = np.einsum("cij,ck->kij", np.nan_to_num(y), f[:, valid[-m:]])
        ac = []
        for im in nz:
            F = np.fft.fft2(im)
            ac.append(np.fft.fftshift(np.fft.ifft2((F - F.mean()) * (F.conj() - F.conj().mean()))).real)
        need(close(o.noise_ACF(-m), np.mean(ac, 0), 1e-6, 1e-8 * np.abs(ac).max()), "noise autocorrelation of the last %d", m)


@check(W + "WidthEstimate1D (walk-down)", quick=40, bound="1-5 curves of 4-40 channels")
def spectral_widths(rng, k, hint):
    from turbustat.statistics.pca import WidthEstimate1D
    m, q = rng.randint(1, 6), rng.randint(4, 41)
    t = np.fft.fftfreq(q) * q
    y = np.array([(1 + 3 * rng.rand()) * np.exp(-abs(t / (.3 + rng.rand() * q / 3)) ** (1 + rng.rand())) for _ in range(m)]).T
    if rng.rand() < .3:
        y[:, 0] = 1 + rng.rand()
    fr = Frozen(y=y)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s, e = WidthEstimate1D(y, method="walk-down")
    fr.check("WidthEstimate1D")
    for c in range(m):
        v = y[:, c] / y[:, c].max()
        below = np.where(v < np.exp(-1))[0]
        if not len(below):
            need(np.isnan(s[c]) and np.isnan(e[c]), "curve never falls to 1/e but its width is %r", s[c])
            continue
        i = below[0]
        need(e[c] == .5, "error %r", e[c])
        need(close(s[c], np.interp(-np.exp(-1), -v[i - 1:i + 1], [i - 1., i])) if i <= (q - 1) // 2 else True,
             "the width %r is not where the curve first falls to 1/e", s[c])
    expect(ValueError, "unknown method", WidthEstimate1D, y, method="other")


@check(W + "WidthEstimate2D", quick=10, bound="Gaussian maps of 24-40 pixels with a noise map, contour and fit methods")
def spatial_widths(rng, k, hint):
    from turbustat.statistics.pca import WidthEstimate2D
    n, m = rng.randint(24, 41, 2)
    sy, sx = rng.uniform(3, 5, 2)
    yy, xx = np.mgrid[:n, :m]
    yy, xx = yy - n // 2, xx - m // 2
    z = np.exp(-.5 * ((yy / sy) ** 2 + (xx / sx) ** 2))
    noise = .4 * np.exp(-.5 * ((yy / 9.) ** 2 + (xx / 2.) ** 2)) + .1 * rng.rand(n, m)
    fr = Frozen(z=z, noise=noise)
    beam = rng.uniform(1, 3)
    b = .25 * beam / np.sqrt(16 * np.log(2))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s0, e0 = WidthEstimate2D([3 * z + noise, z * .5 + noise], noise_ACF=noise, brunt_beamcorrect=False, method="contour")
        s1, e1 = WidthEstimate2D([z + noise], noise_ACF=noise, brunt_beamcorrect=True, beam_fwhm=beam * u.arcmin,
                                 spatial_cdelt=-60 * u.arcsec, method="contour")
        s3, e3 = WidthEstimate2D(np.array([z]), brunt_beamcorrect=False, method="contour")
        need(abs(s0[0] - np.hypot(sy, sx)) < .1, "width %r instead of %r", s0[0], np.hypot(sy, sx))
        need(max(abs(s0[1] - s0[0]), abs(s3[0] - s0[0])) < 1e-3, "width depends on the amplitude or the noise map: %r %r", s0, s3)
        need(abs(s1[0] - np.hypot(sy - b, sx - b)) < .1, "beam-corrected width %r instead of %r", s1[0], np.hypot(sy - b, sx - b))
        f0, g0 = WidthEstimate2D([3 * z + noise], noise_ACF=noise, brunt_beamcorrect=False, method="fit")
        f1, g1 = WidthEstimate2D([3 * z + noise - noise], brunt_beamcorrect=False, method="fit")
        f2, g2 = WidthEstimate2D([3 * z + noise], noise_ACF=noise, beam_fwhm=beam * u.arcmin, spatial_cdelt=1 * u.arcmin, method="fit")
        need(close(f0, f1, 1e-5, 1e-8), "the fit does not use the noise-corrected map: %r %r", f0, f1)
        need(abs(f0[0] - f2[0] - np.sqrt(2) * b) < .15 * b or f2[0] < 2, "beam of %r taken off: %r from %r", b, f0[0] - f2[0], f0)
        s2, e2 = WidthEstimate2D([z + 1.], noise_ACF=noise * 0, brunt_beamcorrect=False, method="contour")
        t = z + .01 * rng.normal(size=z.shape)
        sf, ef = WidthEstimate2D([t], brunt_beamcorrect=False, method="fit")
        sg, eg = WidthEstimate2D([t], brunt_beamcorrect=True, beam_fwhm=beam * u.arcmin, spatial_cdelt=1 * u.arcmin, method="fit")
    fr.check("WidthEstimate2D")
    need(np.isnan(s2[0]) and np.isnan(e2[0]), "no 1/e contour but the width is %r", s2[0])
    need(0 < ef[0] and abs(eg[0] - ef[0]) < .1 * ef[0], "error of the width: %r, %r with the beam removed", ef[0], eg[0])
    for bad in (dict(beam_fwhm=None), dict(spatial_cdelt=None), dict(beam_fwhm=3 * u.pc), dict(spatial_cdelt=3 * u.K)):
        a = dict(beam_fwhm=beam * u.arcmin, spatial_cdelt=1 * u.arcmin)
        a.update(bad)
        expect((ValueError, u.UnitConversionError), str(bad), WidthEstimate2D, [z], brunt_beamcorrect=True, **a)


@check(W + "WidthEstimate2D (interpolate, xinterpolate); WidthEstimate1D (fit, interpolate)", quick=6,
       bound="Gaussian maps of 30-50 pixels and curves of 30-60 channels")
def interpolated_widths(rng, k, hint):
    from turbustat.statistics.pca import WidthEstimate2D, WidthEstimate1D
    n, m = rng.randint(30, 51, 2)
    s = rng.uniform(3, 5)
    q = rng.uniform(1.2, 1.6)
    yy, xx = np.mgrid[:n, :m]
    yy, xx = yy - n // 2, xx - m // 2
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        z = 2 * np.exp(-.5 * ((yy / s / 2) ** 2 + (xx / s / 2) ** 2)) + 1e-7 * rng.rand(n, m)
        try:
            w, e = WidthEstimate2D([z.copy()], brunt_beamcorrect=False, method="interpolate")
        except ValueError:
            raise Skip()        # scipy refuses the knots
        need(abs(w[0] - np.sqrt(8) * s) < .25, "interpolated width %r instead of %r", w[0], np.sqrt(8) * s)
        t = np.fft.fftfreq(n) * n
        y = np.array([np.exp(-.5 * (t / s) ** 2) - .02 * np.cos(2 * np.pi * t / n * 2), 3 * np.exp(-.5 * (t / s / q) ** 2) - .06 * np.cos(2 * np.pi * t / n * 2)]).T
        y[:, 0] /= y[0, 0]
        f, ef = WidthEstimate1D(y.copy(), method="fit")
        need(not (abs(f - np.sqrt(2) * s * np.array([1, q])) > .6).any() and not (ef <= 0).any(),
             "fitted widths %r instead of %r", f, np.sqrt(2) * s * np.array([1, q]))
        y[:, 1] /= y[0, 1]
        g, eg = WidthEstimate1D(y.copy(), method="interpolate")
        for i in range(2):
            v = y[:n // 2, i]
            j = np.where(v < np.exp(-1))[0][0]
            need(abs(g[i] - np.interp(-np.exp(-1), -v[j - 1:j + 1], [j - 1, j])) < 1e-6, "interpolated width of a curve: %r", g[i])


@check(P + "PCA.find_spatial_widths, find_spectral_widths", quick=5, bound="cubes of 12-16 channels and 24-30 pixels a side")
def component_widths(rng, k, hint):
    from turbustat.statistics import PCA
    from turbustat.statistics.pca import WidthEstimate2D, WidthEstimate1D
    from scipy.ndimage import gaussian_filter
    c, n, m = rng.randint(12, 17), rng.randint(24, 31), rng.randint(24, 31)
    x = gaussian_filter(rng.normal(size=(c, n, m)), (1.5, 2, 2)) * 20 + .05 * rng.normal(size=(c, n, m))
    h = hdr3()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = PCA((x, h))
        o.compute_pca(mean_sub=bool(k % 2), n_eigs=4)
        beam = rng.uniform(.5, 1.5)
        px = abs(h["CDELT2"])
        o.find_spatial_widths(method="fit", beam_fwhm=beam * px * u.deg, brunt_beamcorrect=bool(k % 3))
        o.find_spectral_widths()
        ac = o.autocorr_images(n_eigs=4)
        w, e = WidthEstimate2D([np.array(t) for t in ac], noise_ACF=o.noise_ACF(), method="fit", brunt_beamcorrect=bool(k % 3),
                               beam_fwhm=beam * px * u.deg, spatial_cdelt=px * u.deg)
        v, ev = WidthEstimate1D(o.autocorr_spec(n_eigs=4))
    need(o.spatial_width().unit == u.pix and close(o.spatial_width().value, w, 1e-6, 1e-9) and close(o.spatial_width_error().value, e, 1e-6, 1e-9),
         "spatial widths %r, of the noise-corrected autocorrelations %r", o.spatial_width(), w)
    need(close(o.spectral_width().value, v, 1e-9, 1e-12) and close(o.spectral_width_error().value, ev, 1e-9, 1e-12), "spectral widths")
    need(close(o.spatial_width(u.deg).value, w * px, 1e-6, 1e-12), "spatial widths in degrees")


@check(P + "PCA.fit_plaw, PCA.model", quick=20, bound="4-12 widths")
def size_linewidth(rng, k, hint):
    from turbustat.statistics import PCA
    n = rng.randint(4, 13)
    o = bare(PCA)
    a, b = rng.uniform(.4, 1.2), rng.uniform(-1, 1)
    x = np.sort(rng.uniform(.2, 1.5, n))
    o._header = hdr3()
    o._spatial_width = 10 ** x * u.pix
    o._spectral_width = 10 ** (a * x + b) * u.pix
    o._spatial_width_error = .05 * o._spatial_width
    o._spectral_width_error = .05 * o._spectral_width
    if n > 6:
        o._spatial_width[2] = np.nan
        o._spectral_width[4] = np.nan
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o.fit_plaw()
    need(abs(o.index - a) < 1e-4 and abs(np.log10(o._intercept.value) - b) < 1e-4, "index %r, intercept %r instead of %r, %r",
         o.index, np.log10(o._intercept.value), a, b)
    need(abs(o.model(.7) - (o.index * .7 + np.log10(o._intercept.value))) < 1e-12, "the model does not use the fitted parameters")
