"""Bispectra: run-time contracts."""
import warnings
import numpy as np
import astropy.units as u
from ..bcore import registry
from .util import need, close, expect, image, Frozen
CHECKS, check = registry()
B = "turbustat/statistics/pspec_bispec/bispec.py: "


def reference(img, nsamples, seed, sub):
    d = np.where(np.isnan(img), 0., img).astype(float)
    if sub:
        d = d - d.mean()
    F = np.fft.fft2(d)
    ny, nx = d.shape
    h, w = ny // 2, nx // 2
    total, norm = np.zeros((h, w), dtype=complex), np.zeros((h, w))
    hits = np.zeros((ny, nx), dtype=int)
    r = np.random.RandomState(seed)
    for k1 in range(h):
        for k2 in range(w):
            a = r.uniform(0, 2 * np.pi, nsamples)
            b = r.uniform(0, 2 * np.pi, nsamples)
            vec = [(np.trunc(k1 * np.cos(a)), np.trunc(k1 * np.sin(a))), (np.trunc(k2 * np.cos(b)), np.trunc(k2 * np.sin(b))),
                   (np.trunc(k1 * np.cos(a) + k2 * np.cos(b)), np.trunc(k1 * np.sin(a) + k2 * np.sin(b)))]
            vec = [(y.astype(int) % ny, x.astype(int) % nx) for y, x in vec]
            z = F[vec[0]] * F[vec[1]] * F[vec[2]].conj()
            total[k1, k2], norm[k1, k2] = z.sum(), np.abs(z).sum()
            for v in vec:
                m = np.zeros((ny, nx), dtype=bool)
                m[v] = True
                hits += m
    return total, norm, hits


def compute(img, **kw):
    from turbustat.statistics import Bispectrum
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Bispectrum(img).run(show_progress=False, **kw)


@check(B + "compute_bispectrum, Bispectrum", quick=30, bound="images of 4-20 pixels a side, NaNs, 1-60 samples, constant and zero images")
def surfaces(rng, k, hint):
    shape = (int(rng.randint(4, 21)), int(rng.randint(4, 21)))
    kind = k % 5
    img = image(rng, shape, nan=0.1 if kind == 1 else 0.)
    if kind == 2:
        img = np.zeros(shape) if k % 2 else np.full(shape, 3.)
    if kind == 3:
        img = img + 100 * rng.normal()
    sub = bool(rng.randint(2))
    ns, seed = int(rng.randint(1, 61)), int(rng.randint(2 ** 31))
    keep = img.copy()
    b = compute(img, nsamples=ns, seed=seed, mean_subtract=sub)
    need(np.array_equal(img, keep, equal_nan=True), "the image was changed")
    total, norm, hits = reference(img, ns, seed, sub)
    need(b.bispectrum.shape == total.shape == b.bicoherence.shape == b.bispectrum_logamp.shape, "shapes %r %r", b.bispectrum.shape, total.shape)
    need(b.tracker.shape == shape and np.array_equal(b.tracker, hits), "sample counts")
    fin0 = np.where(np.isnan(img), 0., img)
    power = ns * max(np.abs(np.fft.fft2(fin0)).max(), 1e-30) ** 3      # rounding errors are relative to this
    need(np.all(np.abs(b.bispectrum - total) <= 1e-9 * power), "bispectrum is not the sum of the sampled triads")
    bc = b.bicoherence
    ok = np.isfinite(bc)
    need(not np.any(np.isinf(bc)) and np.all(bc[ok] >= 0) and np.all(bc[ok] <= 1 + 1e-9), "bicoherence from %r to %r", np.nanmin(bc), np.nanmax(bc))
    big = norm > 1e-7 * power
    need(np.all(ok[norm > 1e-9 * power]) and np.all(~ok[norm == 0]), "not-a-number where there is power, or the reverse")
    need(close(bc[big], (np.abs(total) / np.where(norm > 0, norm, 1))[big], 1e-6, 1e-9), "bicoherence is not the modulus over the summed moduli")
    with np.errstate(divide="ignore"):
        la = np.log10(np.abs(b.bispectrum))
    need(close(b.bispectrum_logamp, la, 1e-10), "log amplitude")
    c = compute(img, nsamples=ns, seed=seed, mean_subtract=sub)
    need(np.array_equal(c.bispectrum, b.bispectrum) and np.array_equal(c.bicoherence, bc, equal_nan=True), "another result for the same seed")
    if sub and kind != 2 and not np.isnan(img).any():
        d = compute(img + 7.5 * img.std(), nsamples=ns, seed=seed, mean_subtract=True)
        need(np.all(np.abs(d.bispectrum - b.bispectrum) <= 1e-7 * power), "the mean has an influence")


def stats(coord, val, sel, bins):
    out = []
    for i in range(len(bins) - 1):
        m = sel & (coord >= bins[i]) & ((coord < bins[i + 1]) | ((i == len(bins) - 2) & (coord == bins[i + 1])))
        v = val[m]
        out.append(((bins[i] + bins[i + 1]) / 2, v.mean() if v.size else np.nan, v.std() if v.size else np.nan))
    return np.array(out).T


@check(B + "azimuthal_slice, radial_slice", quick=25, bound="surfaces of 3-14 pixels a side with NaNs and infinities, 1-3 slices")
def slices(rng, k, hint):
    from turbustat.statistics import Bispectrum
    h, w = int(rng.randint(3, 15)), int(rng.randint(3, 15))
    b = Bispectrum(np.ones((2 * h, 2 * w)))
    b._bispectrum = rng.normal(size=(h, w)) + 1j * rng.normal(size=(h, w))
    b._bicoherence = np.where(rng.uniform(size=(h, w)) < .1, np.nan, rng.uniform(size=(h, w)))
    b._bispectrum_amp = np.where(rng.uniform(size=(h, w)) < .1, -np.inf, rng.normal(size=(h, w)))
    which = ["bicoherence", "bispectrum_logamp"][k % 2]
    val = b.bicoherence if k % 2 == 0 else b.bispectrum_logamp
    y, x = np.mgrid[:h, :w]
    dist, theta = np.hypot(y, x), np.arctan2(y, x)
    n = int(rng.randint(1, 4))
    own = bool(rng.randint(2))
    for radial in (False, True):
        if radial:
            at = np.sort(rng.uniform(0.1, 1.5, n))
            wd = rng.uniform(0.1, 1.0, n)
            bw = float(rng.uniform(0.6, 1.4))
            top = dist.max()
            coord, other = dist, theta
            if int(np.floor(top / bw)) < 2:
                continue
        else:
            at = np.sort(rng.uniform(1, max(h, w), n))
            wd = rng.uniform(0.5, 4, n)
            bw = float(rng.uniform(0.1, 0.6))
            top = np.pi
            coord, other = theta, dist
        bins = np.linspace(0, top, int(np.floor(top / bw)))
        wds = wd if own else np.repeat(wd[0], n)
        if not all(((other >= a - d / 2. + 1e-6) & (other <= a + d / 2. - 1e-6) & np.isfinite(val)).any() for a, d in zip(at, wds)):
            continue                   # nothing there to average: scipy refuses
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if radial:
                unit = [u.rad, u.deg][int(rng.randint(2))]
                aq, wq = (at * u.rad).to(unit), (wd * u.rad).to(unit)
                single = n == 1 and bool(rng.randint(2))
                out, masks = b.radial_slice(aq[0] if single else aq, wq if own and not single else wq[0], bin_width=bw, value=which, return_masks=True)
                keys = aq.value
                at, wds = aq.to(u.rad).value, (wq if own else np.repeat(wq[0], n)).to(u.rad).value
            else:
                single = n == 1 and bool(rng.randint(2))
                out, masks = b.azimuthal_slice(at[0] if single else list(at) if rng.randint(2) else at, wd if own and not single else wd[0],
                                               bin_width=(bw * u.rad).to([u.rad, u.deg][int(rng.randint(2))]), value=which, return_masks=True)
                keys = at
        need(len(out) == len(masks) == n, "%d slices, %d masks for %d places", len(out), len(masks), n)
        for key, a, d, m in zip(keys, at, wds, masks):
            sel = (other >= a - d / 2.) & (other <= a + d / 2.)
            if np.any(np.abs(np.abs(other - a) - d / 2.) < 1e-9) or np.any(np.abs(coord[..., None] - bins[1:-1]) < 1e-9):
                continue
            need(key in out, "no slice under %r", key)
            need(np.array_equal(m, sel), "mask of the slice at %r", key)
            want = stats(coord, val, sel & np.isfinite(val), bins)
            need(close(out[key], want, 1e-9, 1e-12), "%s slice at %r", "radial" if radial else "azimuthal", key)


@check(B + "azimuthal_slice, radial_slice", quick=1, bound="one of each")
def refused(rng, k, hint):
    from turbustat.statistics import Bispectrum
    b = compute(image(rng, (12, 12)), nsamples=5)
    expect(TypeError, "azimuthal slice of an unknown surface", b.azimuthal_slice, 3, 1, value="tracker")
    expect(TypeError, "radial slice of an unknown surface", b.radial_slice, 30 * u.deg, 5 * u.deg, value="tracker")
    expect(TypeError, "bin width without an angle", b.azimuthal_slice, 3, 1, bin_width=5.)
    expect(TypeError, "bin width in pixels", b.azimuthal_slice, 3, 1, bin_width=5. * u.pix)
    expect(ValueError, "widths for another number of radii", b.azimuthal_slice, [2, 3], np.array([1.]))
    expect(ValueError, "widths for another number of angles", b.radial_slice, [20, 30] * u.deg, [5] * u.deg)
    expect(TypeError, "angles in pixels", b.radial_slice, 3 * u.pix, 5 * u.deg)
