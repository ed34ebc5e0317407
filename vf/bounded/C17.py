"""Structure increments: run-time contracts."""
import warnings
import numpy as np
import astropy.units as u
from ..bcore import registry, Skip, Known
from .util import need, close, expect, image, Frozen, hdr2
CHECKS, check = registry()
T = "turbustat/statistics/tsallis/tsallis.py: "


def field(x, lag, per):
    p = np.pad(x, lag, mode="wrap" if per else "constant")
    h, w = x.shape
    n = sum(p[lag + a:lag + a + h, lag + b:lag + b + w] for a, b in ((lag, 0), (-lag, 0), (0, lag), (0, -lag)))
    return n / 4. - x


def setup(rng, n=None, tails=False):
    from turbustat.statistics import Tsallis
    sh = (n, n) if n else tuple(rng.randint(6, 40, 2))
    x = image(rng, sh, nan=rng.choice([0, 0, .05]))
    if tails:
        x = np.exp(1.5 * x / np.nanstd(x))
    m = min(sh) // 2
    lags = rng.permutation(np.arange(1, m + 1))[:rng.randint(1, 5)]
    kind = rng.randint(3)
    pix, dist = rng.uniform(.001, .1), rng.uniform(10, 500) * u.pc
    if kind == 0:
        q = lags * u.pix
        if rng.rand() < .4:
            q = (lags + rng.rand(len(lags)) * .9) * u.pix if lags.max() < m else q
    elif kind == 1:
        q = ((lags + .2) * pix * u.deg).to(u.arcmin)
    else:
        q = ((lags + .2) * pix * u.deg).to(u.rad).value * dist
    o = Tsallis(x, hdr2(pix=pix, shape=sh), lags=q, distance=dist)
    return x, lags, q, o


@check(T + "Tsallis.make_tsallis", quick=40, bound="maps of 6-39 pixels a side with NaN, 1-4 lags in any order and unit")
def increments(rng, k, hint):
    x, lags, q, o = setup(rng)
    per = bool(rng.randint(2))
    nb = rng.choice([0, 7, 25]) or None
    fr = Frozen(x=x, q=q)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o.make_tsallis(periodic=per, num_bins=nb)
    fr.check("make_tsallis")
    nb = nb or int(np.ceil(np.sqrt(np.isfinite(x).sum())))
    need(o.lag_arrays.shape == (len(lags),) + x.shape and o.lag_distribs.shape == (len(lags), 2, nb),
         "shapes %s %s", o.lag_arrays.shape, o.lag_distribs.shape)
    for i, lag in enumerate(lags):
        d = field(x, int(lag), per)
        d = (d - np.nanmean(d)) / np.nanstd(d)
        need(close(o.lag_arrays[i], d, 1e-7, 1e-8), "lag %d (periodic=%s): not the standardised difference from the four neighbours", lag, per)
        v = o.lag_arrays[i]
        h, e = np.histogram(v[np.isfinite(v)], bins=nb)
        with np.errstate(divide="ignore"):
            need(close(o.lag_distribs[i, 0], (e[1:] + e[:-1]) / 2, 1e-10, 1e-12), "lag %d: bin centres", lag)
            need(close(o.lag_distribs[i, 1], np.log10(h / float(h.sum())), 1e-10, 1e-12), "lag %d: fraction per bin", lag)


def model(x, a, w2, q):
    return -1 / (q - 1) * (np.log10(1 + (q - 1) * x ** 2 / w2) + a)


@check(T + "tsallis_function", quick=20, bound="50 positions, random parameters")
def model_values(rng, k, hint):
    from turbustat.statistics.tsallis.tsallis import tsallis_function
    x, p = rng.normal(size=50) * 4, (rng.normal(), rng.uniform(.01, 3), rng.uniform(1.05, 3))
    need(close(tsallis_function(x, *p), model(x, *p), 1e-10), "not the logarithm of the Tsallis distribution")


@check(T + "Tsallis.fit_tsallis, Tsallis.tsallis_table", quick=8, bound="maps of 64 pixels a side, 1-4 lags")
def fits(rng, k, hint):
    from turbustat.statistics.tsallis import tsallis as mod
    x, lags, q, o = setup(rng, 64, tails=k % 4 == 0)
    seen = []
    real = mod.curve_fit

    def rec(f, xx, yy, *a, **kw):
        r = real(f, xx, yy, *a, **kw)
        seen.append((f, np.array(xx), np.array(yy), r))
        return r
    clip = None if k % 2 else rng.choice([5, 8])
    mod.curve_fit = rec
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o.make_tsallis(periodic=bool(rng.randint(2)), num_bins=30)
            try:
                o.fit_tsallis(sigma_clip=clip)
            except RuntimeError:
                raise Skip()        # scipy gave up
            t = o.tsallis_table
    finally:
        mod.curve_fit = real
    n = len(lags)
    need(o.tsallis_params.shape == (n, 3) and o.tsallis_stderrs.shape == (n, 3) and len(t) == n and len(o.tsallis_chisq) == n,
         "one row per lag")
    need(close(np.asarray(t["lags"]), q.value),
         "lags of the table")
    for c, name in enumerate(("logA", "w2", "q")):
        need(np.array_equal(t[name], o.tsallis_params[:, c], equal_nan=True) and
             np.array_equal(t[name + "_stderr"], o.tsallis_stderrs[:, c], equal_nan=True), "table column %s", name)
    known = False
    if len(seen) != n:
        raise Skip()
    for i in range(n):
        c, y = o.lag_distribs[i]
        f, xx, yy, (p, cov) = seen[i]
        ok = np.isfinite(c) & np.isfinite(y)
        if clip is not None and not np.array_equal(c[ok & (abs(c) < clip)], xx):
            need(np.array_equal(c[ok & (abs(y) < clip)], xx), "lag %d: the fit used other bins than those within the limits", lags[i])
            known = True
            ok &= abs(y) < clip
        elif clip is not None:
            ok &= abs(c) < clip
        need(np.array_equal(c[ok], xx) and np.array_equal(y[ok], yy), "lag %d: bins used in the fit", lags[i])
        need(np.array_equal(o.tsallis_params[i], p) and np.array_equal(o.tsallis_stderrs[i], np.sqrt(np.diag(cov)), equal_nan=True),
             "lag %d: fitted parameters are not those of its own distribution", lags[i])
        m = model(xx, *p)
        need(close(f(xx, *p), m, 1e-10), "the fitted function is not the Tsallis model")
        need(close(np.ravel(o.tsallis_chisq[i]), [np.sum((np.exp(m) - np.exp(yy)) ** 2 / np.exp(yy))], 1e-8),
             "lag %d: the model is not evaluated with its own parameters", lags[i])
    if known:
        raise Known("Tsallis-clip-on-heights", "the limit of %s standard deviations acted on the log fractions, not on the bins" % clip)


@check(T + "Tsallis.lags", quick=40, bound="maps of 6-39 pixels a side")
def lag_limits(rng, k, hint):
    x, lags, q, o = setup(rng)
    m = min(x.shape)
    for bad in (.999, .5, 0, -1, m // 2 + 1, m):
        expect(ValueError, "lag of %s pixels in %s" % (bad, x.shape), setattr, o, "lags", [1, bad] * u.pix)
        need(o.lags is q or np.array_equal(o.lags, q), "a refused setting replaced the lags")
    o.lags = [m // 2, 1, 1] * u.pix
    need(np.array_equal(o.lags.value, [m // 2, 1, 1]), "lags not kept in order")
    expect(TypeError, "bare numbers", setattr, o, "lags", [1, 2])
