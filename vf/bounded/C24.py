"""Cramer statistic: run-time contracts."""
import numpy as np
from ..bcore import registry, bare
from .util import need, close, expect, image, Frozen
CHECKS, check = registry()
M = "turbustat/statistics/cramer/cramer.py: "


def energy(a, b):
    d = lambda x, y: np.sqrt(np.sqrt(((x[:, None, :] - y[None]) ** 2).sum(2)))
    m, n = len(a), len(b)
    return m * n / (m + n) * (d(a, b).mean() - .5 * d(a, a).mean() - .5 * d(b, b).mean())


def stat(a, b, **k):
    from turbustat.statistics import Cramer_Distance
    o = bare(Cramer_Distance)
    o._data_matrix1, o._data_matrix2 = a, b
    o.cramer_statistic(**k)
    return o.distance


@check(M + "cramer_statistic", quick=40, bound="sets of 1-9 samples of 1-12 values")
def formula(rng, k, hint):
    m, n, q = rng.randint(1, 10, 2).tolist() + [rng.randint(1, 13)]
    a, b = rng.normal(size=(m, q)), rng.normal(size=(n, q)) + rng.rand()
    fr = Frozen(a=a, b=b)
    v = stat(a, b)
    fr.check("cramer_statistic")
    sc = max(1, abs(v))
    need(abs(v - energy(a, b)) < 1e-6 * sc, "%d and %d samples: %r instead of %r", m, n, v, energy(a, b))
    need(v > -1e-6, "negative: %r", v)
    need(abs(v - stat(b, a)) < 1e-6 * sc, "not symmetric")
    need(abs(stat(a, a.copy())) < 1e-3, "not zero for identical sets: %r", stat(a, a.copy()))
    need(abs(v - stat(a[rng.permutation(m)], b[rng.permutation(n)])) < 1e-6 * sc, "changes when samples are reordered")
    p = rng.permutation(q)
    need(abs(v - stat(a[:, p], b[:, p])) < 1e-6 * sc, "changes when the values of all samples are reordered")
    if k < 2:
        need(abs(v - stat(a, b, n_jobs=2)) < 1e-6 * sc, "changes with the number of processes")


def cub(rng, nan=True, sh=None):
    sh = sh or (rng.randint(2, 8), rng.randint(4, 13), rng.randint(4, 13))
    x = rng.normal(size=sh) + rng.rand()
    if nan and rng.rand() < .6:
        x[rng.rand(*sh) < .15] = np.nan
    return x


def intensity(x, p, lim):
    n = int(round(p * x.shape[1] * x.shape[2]))
    out = np.zeros((len(x), n))
    for i, ch in enumerate(x):
        v = np.sort(ch[np.isfinite(ch) & (ch > lim)])[::-1][:n]
        out[i, :len(v)] = v
    return out / np.nanmax(x)


@check("turbustat/statistics/threeD_to_twoD.py: intensity_data, _format_data", quick=30, bound="cubes up to 7 x 12 x 12 with NaN")
def brightest_values(rng, k, hint):
    from turbustat.statistics.threeD_to_twoD import _format_data
    x = cub(rng)
    p = [.2, .5, 1., .05 + .5 * rng.rand()][k % 4]
    lim = [-np.inf, 0., .5][rng.randint(3)]
    fr = Frozen(x=x)
    got = _format_data(x, data_format="intensity", p=p, noise_lim=lim, normalize=False)
    w = intensity(x, p, lim)
    need(close(got, w, 1e-10, 1e-12), "p=%s limit %s: not the brightest values of every channel, in order, padded with zeros", p, lim)
    got = _format_data(x, data_format="intensity", p=p, noise_lim=lim, normalize=True)
    fr.check("_format_data")
    s = np.linalg.norm(w, 2)
    if s > 0:
        need(close(got, w / s, 1e-9, 1e-12), "normalised matrix")


@check("turbustat/statistics/threeD_to_twoD.py: _format_data", quick=30, bound="cubes up to 7 x 12 x 12 with NaN")
def brightest_spectra(rng, k, hint):
    from turbustat.statistics.threeD_to_twoD import _format_data
    x = cub(rng)
    ns = rng.randint(1, x.shape[1] * x.shape[2] + 1)
    fr = Frozen(x=x)
    got = _format_data(x, data_format="spectra", num_spec=ns, normalize=False)
    fr.check("_format_data")
    z = np.nan_to_num(x).reshape(len(x), -1)
    o = np.argsort(z.sum(0))[::-1][:ns]
    need(got.shape == (len(x), ns), "shape %s", got.shape)
    a = sorted(map(tuple, got.T.round(9).tolist()))
    b = sorted(map(tuple, z[:, o].T.round(9).tolist()))
    need(np.allclose(a, b), "not the %d brightest spectra", ns)
    expect((NameError, ValueError), "unknown format", _format_data, x, data_format="nothing")


@check(M + "Cramer_Distance.distance_metric", quick=15, bound="pairs of cubes up to 7 x 12 x 12 with NaN")
def whole(rng, k, hint):
    from turbustat.statistics import Cramer_Distance
    x = cub(rng)
    y = cub(rng, sh=(rng.randint(2, 8),) + x.shape[1:])
    fr = Frozen(x=x, y=y)
    a, b = intensity(x, .2, -np.inf), intensity(y, .2, -np.inf)
    w = energy(a / np.linalg.norm(a, 2), b / np.linalg.norm(b, 2))
    v = Cramer_Distance(x, y).distance_metric().distance
    need(abs(v - w) < 1e-6 * max(1, abs(w)), "distance %r instead of %r", v, w)
    need(abs(v - Cramer_Distance(y, x).distance_metric().distance) < 1e-7 * max(1, abs(w)), "not symmetric")
    need(abs(Cramer_Distance(x, x).distance_metric().distance) < 1e-3, "not zero for the same cube")
    l1, l2 = rng.rand(2)
    v = Cramer_Distance(x, y, noise_value1=l1, noise_value2=l2).distance_metric().distance
    a, b = intensity(x, .2, l1), intensity(y, .2, l2)
    w = energy(a / np.linalg.norm(a, 2), b / np.linalg.norm(b, 2))
    need(abs(v - w) < 1e-6 * max(1, abs(w)) or not np.isfinite(w), "noise limits: %r instead of %r", v, w)
    fr.check("Cramer_Distance")
    # maps of other sizes: the larger set of samples is drawn down without repetition
    q = cub(rng, sh=(x.shape[0], x.shape[1] + 3, x.shape[2] + 2), nan=False)
    full = intensity(q, .2, -np.inf)
    want = int(round(.2 * x.shape[1] * x.shape[2]))
    for swap in (False, True):
        o = Cramer_Distance(*((q, x) if swap else (x, q)))
        o.format_data(seed=7, normalize=False)
        A, B = (o.data_matrix2, o.data_matrix1) if swap else (o.data_matrix1, o.data_matrix2)
        need(A.shape == (x.shape[0], want) and B.shape == (q.shape[0], want), "sample sizes")
        need(close(A, intensity(x, .2, -np.inf), 1e-10, 1e-12), "samples of the smaller cube")
        for r, f in zip(B, full):
            f = list(f.round(12))
            for t in r.round(12):
                need(t in f, "a value that is not among the brightest of the channel, or twice")
                f.remove(t)
