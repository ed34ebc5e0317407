"""Simulated fields: run-time contracts."""
import numpy as np
from ..bcore import registry
from .util import need, close, expect
CHECKS, check = registry()
G = "turbustat/simulator/gen_field.py: "
IDX = (0., 0.5, 1., 2., 3., 11. / 3., 4.)


def freqs(n, nd):
    ax = [np.fft.fftfreq(n)] * (nd - 1) + [np.fft.rfftfreq(n)]
    return np.meshgrid(*ax, indexing="ij")


def below(n, nd):
    """the frequencies below the highest one of every axis, except zero"""
    f = freqs(n, nd)
    ok = np.ones(f[0].shape, dtype=bool)
    for x in f:
        ok &= np.abs(x) < 0.5 - 1e-9
    return f, ok & (sum(x ** 2 for x in f) > 0)


def law(n, nd, p, ellip=1., theta=0.):
    f, ok = below(n, nd)
    if nd == 2 and ellip < 1:
        y, x = f
        r = np.sqrt((ellip * (x * np.cos(theta) - y * np.sin(theta))) ** 2 +
                    (x * np.sin(theta) + y * np.cos(theta)) ** 2)
    else:
        r = np.sqrt(sum(x ** 2 for x in f))
    with np.errstate(divide="ignore"):
        return r ** (-p / 2.), ok


def follows(what, T, n, nd, p, ellip=1., theta=0.):
    a, ok = law(n, nd, p, ellip, theta)
    if not ok.any():
        return
    q = np.abs(T)[ok] / a[ok]
    need(np.all(np.isfinite(q)) and q.max() > 0, "%s: no power", what)
    need(np.all(np.abs(q / np.median(q) - 1) < 1e-6), "%s: amplitude over power law varies from %r to %r (size %d, index %r)",
         what, q.min() / np.median(q), q.max() / np.median(q), n, p)


@check(G + "make_extended", quick=40, bound="sizes 2-48, 7 indices, circles and 4 ellipticities with any angle")
def maps(rng, k, hint):
    from turbustat.simulator.gen_field import make_extended
    n = int(rng.randint(2, 49))
    p = float(IDX[rng.randint(len(IDX))])
    ellip = float([1., 1., .9, .5, .3, .2][rng.randint(6)])
    theta = float(rng.uniform(-4, 4))
    seed = int(rng.randint(2 ** 31))
    kw = dict(powerlaw=p, ellip=ellip, theta=theta, randomseed=seed)
    m = make_extended(n, **kw)
    need(isinstance(m, np.ndarray) and m.dtype.kind == "f" and m.shape == (n, n), "map of shape %r, type %s", m.shape, m.dtype)
    need(np.all(np.isfinite(m)), "map is not finite")
    need(abs(m.mean()) <= 1e-10 * max(np.abs(m).max(), 1e-300), "mean %r", m.mean())
    T = np.fft.rfft2(m)
    follows("map", T, n, 2, p, ellip, theta)
    H = make_extended(n, return_fft=True, full_fft=False, **kw)
    tol = 1e-9 * np.abs(T).max() + 1e-12
    need(H.shape == T.shape and np.all(np.abs(H - T) <= tol), "half-plane transform is not that of the map")
    F = make_extended(n, return_fft=True, **kw)
    need(F.shape == (n, n) and np.all(np.abs(F - np.fft.fftshift(np.fft.fft2(m))) <= tol),
         "full-plane transform is not that of the map (zero frequency in the centre)")
    need(np.array_equal(m, make_extended(n, **kw)), "another map for the same seed")
    if n > 4:
        need(not np.allclose(m, make_extended(n, **dict(kw, randomseed=seed + 1))), "the seed has no influence")


@check(G + "make_3dfield", quick=25, bound="sizes 2-17, 7 indices, amplitudes 0.01-100")
def cubes(rng, k, hint):
    from turbustat.simulator.gen_field import make_3dfield
    n = int(rng.randint(2, 18))
    p = float(IDX[rng.randint(len(IDX))])
    amp = float(10 ** rng.uniform(-2, 2))
    seed = int(rng.randint(2 ** 31))
    kw = dict(powerlaw=p, amp=amp, randomseed=seed)
    m = make_3dfield(n, **kw)
    need(isinstance(m, np.ndarray) and m.dtype.kind == "f" and m.shape == (n,) * 3, "field of shape %r, type %s", m.shape, m.dtype)
    need(np.all(np.isfinite(m)), "field is not finite")
    need(abs(m.mean()) <= 1e-10 * np.abs(m).max(), "mean %r", m.mean())
    need(close(np.sqrt(np.mean(m ** 2)), amp, 1e-9), "root-mean-square amplitude %r, asked %r", np.sqrt(np.mean(m ** 2)), amp)
    T = np.fft.rfftn(m)
    follows("field", T, n, 3, p)
    H = make_3dfield(n, return_fft=True, **kw)
    need(H.shape == T.shape and np.all(np.abs(H - T) <= 1e-9 * np.abs(T).max()), "transform is not that of the field")
    need(np.array_equal(m, make_3dfield(n, **kw)), "another field for the same seed")
    need(not np.allclose(m, make_3dfield(n, **dict(kw, randomseed=seed + 1))) or n < 3, "the seed has no influence")


@check(G + "make_extended", quick=20, bound="ellipticities from -2 to 3")
def refused(rng, k, hint):
    from turbustat.simulator.gen_field import make_extended
    e = [0., -1e-9, -1., 1. + 1e-9, 1.5, 2.][k % 6] if k < 6 else float(rng.uniform(-2, 3))
    n = int(rng.randint(3, 12))
    if e <= 0 or e > 1:
        expect(ValueError, "ellipticity %r" % e, lambda: make_extended(n, ellip=e))
    else:
        need(make_extended(n, ellip=e).shape == (n, n), "shape")
