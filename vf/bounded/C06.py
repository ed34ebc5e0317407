"""Windows against their definition."""
import numpy as np
from ..bcore import Violation, registry
from .util import need, close, expect, image, hdr2
CHECKS, check = registry()
T = "turbustat/statistics/apodizing_kernels.py: "


def ref(shape, alpha, beta):
    i, j = np.indices(shape).astype(float)
    d = np.sqrt((i - (shape[0] - 1) / 2.) ** 2 + (j - (shape[1] - 1) / 2.) ** 2)
    h = (min(shape) - 1.) / 2.
    ri, rt = beta * h, np.floor(alpha * h)
    w = np.where(d <= ri, 1., 0.)
    if rt > 0:
        t = (d >= ri) & (d <= ri + rt)
        w[t] = 0.5 * (1 + np.cos(np.pi * (d[t] - ri) / rt))
    return w, d, ri, rt


def test(f, shape, alpha, beta, what):
    w, d, ri, rt = ref(shape, alpha, beta)
    what = "%s shape %s alpha %g beta %g" % (what, shape, alpha, beta)
    need(f.shape == tuple(shape), "%s: shape %s", what, f.shape)
    need(np.all((f >= 0) & (f <= 1)), "%s: outside 0-1", what)
    # away from the (rounding-sensitive) radii themselves
    tol = 1e-9 * (1 + ri + rt)
    safe = (np.abs(d - ri) > tol) & (np.abs(d - ri - rt) > tol) if rt == 0 else np.ones(shape, bool)
    need(np.all(np.abs(f - w)[safe] < 1e-9), "%s: differs from the definition by %g", what, np.abs(f - w)[safe].max()
         if safe.any() else 0)
    need(np.all(f[(d < ri - tol)] == 1), "%s: not one inside", what)
    need(np.all(f[(d > ri + rt + tol)] == 0), "%s: not zero outside", what)
    need(np.array_equal(f, f[::-1]) and np.array_equal(f, f[:, ::-1]), "%s: not symmetric", what)


def pars(rng, k, hint):
    shape = tuple(int(x) for x in rng.randint(1, 40, size=2)) if k > 12 else \
        [(1, 1), (1, 5), (5, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 7), (7, 4), (8, 8), (9, 9), (16, 17), (17, 16)][k]
    alpha, beta = rng.uniform(0, 1), rng.uniform(0, 1)
    if rng.rand() < .3:
        alpha = [0., 1., 0.5, 0.3, 2.][rng.randint(5)]
    if rng.rand() < .3:
        beta = [0., 1., 0.5, 0.25, 1.5][rng.randint(5)]
    if hint:
        try:
            shape = (min(60, int(hint["n"])), min(60, int(hint["m"])))
            from fractions import Fraction
            alpha = float(Fraction(hint.get("alpha", alpha)))
            beta = float(Fraction(hint.get("beta", beta)))
        except Exception:
            pass
    return shape, alpha, beta


@check(T + "SplitCosineBellWindow, HanningWindow, TukeyWindow, CosineBellWindow", quick=150,
       bound="shapes up to 40x40, random alpha and beta")
def windows(rng, k, hint):
    from turbustat.statistics.apodizing_kernels import SplitCosineBellWindow, HanningWindow, TukeyWindow, CosineBellWindow
    s, a, b = pars(rng, k, hint)
    test(SplitCosineBellWindow(a, b)(s), s, a, b, "split cosine bell")
    test(HanningWindow()(s), s, 1., 0., "Hanning")
    test(CosineBellWindow(a)(s), s, a, 0., "cosine bell")
    t = min(a, 1.)
    test(TukeyWindow(t)(s), s, t, 1. - t, "Tukey")


@check("turbustat/statistics/base_pspec2.py: StatisticBase_PSpec2D.apodizing_kernel", quick=40,
       bound="shapes up to 40x40, power spectrum, VCA and MVC objects")
def kernels(rng, k, hint):
    from turbustat.statistics.base_pspec2 import StatisticBase_PSpec2D
    s, a, b = pars(rng, k, hint)
    t = min(a, 1.)
    o = StatisticBase_PSpec2D()
    form = k % 3
    o.data = np.ones(s if form != 1 else (3,) + s)
    if form == 2:
        o.data, o.centroid = None, o.data
    test(o.apodizing_kernel("splitcosinebell", alpha=a, beta=b), s, a, b, "splitcosinebell")
    test(o.apodizing_kernel("hanning", alpha=a, beta=b), s, 1., 0., "hanning")
    test(o.apodizing_kernel("cosinebell", alpha=a, beta=b), s, a, 0., "cosinebell")
    test(o.apodizing_kernel("tukey", alpha=t, beta=b), s, t, 1. - t, "tukey")
    test(o.apodizing_kernel(), s, .1, .9, "default")
    expect(ValueError, "unknown window", o.apodizing_kernel, "tophat")


@check("turbustat/statistics/pspec_bispec/pspec.py: PowerSpectrum.compute_pspec", quick=12,
       bound="16-30 pixel images, window applied before the transform")
def applied(rng, k, hint):
    from turbustat.statistics import PowerSpectrum, VCA
    from .util import hdr3
    s = (int(rng.randint(12, 26)), int(rng.randint(12, 26)))
    kern = ["splitcosinebell", "hanning", "cosinebell", "tukey"][k % 4]
    a, b = rng.uniform(.1, .6), rng.uniform(0, .4)
    al, be = {"splitcosinebell": (a, b), "hanning": (1., 0.), "cosinebell": (a, 0.), "tukey": (a, 1 - a)}[kern]
    w = ref(s, al, be)[0]
    im = image(rng, s)
    p = PowerSpectrum(im, header=hdr2())
    p.compute_pspec(apodize_kernel=kern, alpha=a, beta=b)
    want = np.fft.fftshift(np.abs(np.fft.fft2(im * w)) ** 2)
    need(close(p._ps2D, want, 1e-6, 1e-8 * want.max()), "2-D power is not that of the image times the %s window", kern)
    cube = rng.normal(size=(4,) + s)
    v = VCA(cube, header=hdr3())
    v.compute_pspec(apodize_kernel=kern, alpha=a, beta=b)
    want = np.fft.fftshift(np.abs(np.fft.fftn(cube * w)) ** 2).sum(0)
    need(close(v._ps2D, want, 1e-6, 1e-8 * want.max()), "VCA power is not that of the cube times the %s window", kern)
