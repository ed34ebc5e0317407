"""Inputs and comparisons for the run-time contracts."""
import copy
import numpy as np
import astropy.units as u
from astropy.io import fits
from ..bcore import Violation, Skip


def hdr2(rng=None, pix=0.01, shape=None):
    h = fits.Header()
    h["NAXIS"] = 2
    if shape is not None:
        h["NAXIS1"], h["NAXIS2"] = shape[1], shape[0]
    h["CTYPE1"], h["CTYPE2"] = "RA---TAN", "DEC--TAN"
    h["CRVAL1"], h["CRVAL2"] = 30.0, 10.0
    h["CRPIX1"], h["CRPIX2"] = 5.0, 7.0
    h["CDELT1"], h["CDELT2"] = -pix, pix
    h["CUNIT1"], h["CUNIT2"] = "deg", "deg"
    h["EQUINOX"] = 2000.0
    h["BUNIT"] = "K"
    return h


def hdr3(rng=None, pix=0.01, dv=100.0, vel=True, shape=None):
    h = hdr2(rng, pix)
    h["NAXIS"] = 3
    if shape is not None:
        h["NAXIS1"], h["NAXIS2"], h["NAXIS3"] = shape[2], shape[1], shape[0]
    h["CTYPE3"] = "VRAD" if vel else "FREQ"
    h["CUNIT3"] = "m/s" if vel else "Hz"
    h["CRVAL3"] = 0.0 if vel else 1.1e11
    h["CRPIX3"] = 1.0
    h["CDELT3"] = dv
    if vel:
        h["RESTFRQ"] = 1.15e11
        h["SPECSYS"] = "LSRK"
    return h


def close(a, b, rtol=1e-8, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def expect(exc, what, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return
    except Exception as e:
        raise Violation("%s: raised %s (%s) instead of %s" % (what, type(e).__name__, e, exc))
    raise Violation("%s: accepted" % what)


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a if a else what)


def image(rng, shape, pos=False, nan=0.0, scale=None):
    im = rng.normal(size=shape)
    if rng.rand() < 0.5 and len(shape) == 2 and min(shape) > 3:
        # something with structure
        f = np.fft.rfftn(im)
        ky = np.fft.fftfreq(shape[0])[:, None]
        kx = np.fft.rfftfreq(shape[1])[None, :]
        k = np.hypot(ky, kx)
        k[0, 0] = 1
        im = np.fft.irfftn(f * k ** -1.2, s=shape)
    if pos:
        im = im - im.min() + 0.1 * im.std() + 1e-3
    if scale:
        im = im * scale
    if nan:
        im = im.copy()
        im[rng.rand(*shape) < nan] = np.nan
    return im


class Frozen:
    """remembers caller-owned values; .check() compares bit for bit"""

    def __init__(self, **items):
        self.items = items
        self.saved = {k: copy.deepcopy(v) for k, v in items.items()}

    def check(self, what=""):
        for k, v in self.items.items():
            if not same_val(v, self.saved[k]):
                raise Violation("%s: caller's %s was modified" % (what, k))


def same_val(a, b):
    if isinstance(a, u.Quantity) or isinstance(b, u.Quantity):
        return isinstance(a, u.Quantity) and isinstance(b, u.Quantity) and a.unit == b.unit and \
            same_val(np.asarray(a.value), np.asarray(b.value))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b, equal_nan=True))
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all(a == b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a.keys()) == list(b.keys()) and all(same_val(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, fits.Header):
        return isinstance(b, fits.Header) and a.tostring() == b.tostring()
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    if type(a) is not type(b):
        return False
    try:
        return bool(a == b)
    except Exception:
        return a is b


def written(h, rng):
    """the same header, the pixel scales written as CDELT, a PC matrix with
    CDELT, or a CD matrix, perhaps rotated, perhaps in other units"""
    h = h.copy()
    n = h["NAXIS"]
    form, rot, units = rng.randint(3), rng.rand() < .5, rng.rand() < .4
    c = [h["CDELT%d" % (i + 1)] for i in range(n)]
    if units:
        for i in (0, 1):
            h["CUNIT%d" % (i + 1)] = "arcsec"
            h["CRVAL%d" % (i + 1)] *= 3600.
            c[i] *= 3600.
        if n == 3:
            h["CUNIT3"], s = ("km/s", 1e-3) if h["CUNIT3"] == "m/s" else ("GHz", 1e-9)
            c[2] *= s
            h["CRVAL3"] *= s
    m = np.eye(n)
    if rot and form:
        t = rng.uniform(0, 2 * np.pi)
        m[:2, :2] = [[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]
    for i in range(n):
        h["CDELT%d" % (i + 1)] = c[i]
        if form == 2:
            del h["CDELT%d" % (i + 1)]
        for j in range(n):
            if form == 1 and m[i, j] != (i == j):
                h["PC%d_%d" % (i + 1, j + 1)] = m[i, j]
            if form == 2 and (m[i, j] or i == j):
                h["CD%d_%d" % (i + 1, j + 1)] = c[i] * m[i, j]
    return h
