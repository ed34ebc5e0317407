"""Seeded routines: run-time contracts."""
import random
import warnings
import numpy as np
import astropy.units as u
from ..bcore import registry
from .util import need, expect, image, hdr2, hdr3, same_val
CHECKS, check = registry()
G = "turbustat/simulator/gen_field.py: "
F = "turbustat/statistics/fitting_utils.py: "
B = "turbustat/statistics/pspec_bispec/bispec.py: "
K = "turbustat/statistics/cramer/cramer.py: "


def states():
    return np.random.get_state(), random.getstate()


def same_state(a, b):
    return a[0][0] == b[0][0] and np.array_equal(a[0][1], b[0][1]) and a[0][2:] == b[0][2:] and a[1] == b[1]


def val(r):
    return [np.array(x) for x in (r if isinstance(r, (tuple, list)) else [r])]


def reproducible(what, f, rng, other=None):
    """f(): the same numbers whatever was drawn before, in between and afterwards;
    the generators of numpy and of the standard library stay as they were"""
    keep = states()
    out = []
    try:
        for i in range(3):
            np.random.seed(int(rng.randint(2 ** 31)))
            random.seed(int(rng.randint(2 ** 31)))
            np.random.normal(size=int(rng.randint(0, 5)))     # also a cached Gaussian draw
            s = states()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = val(f())
            need(same_state(s, states()), "%s: the global random state was changed", what)
            out.append(r)
            if other is not None and i == 0:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    other()
        for r in out[1:]:
            need(len(r) == len(out[0]) and all(same_val(x, y) for x, y in zip(r, out[0])),
                 "%s: other numbers for the same seed", what)
    finally:
        np.random.set_state(keep[0])
        random.setstate(keep[1])
    return out[0]


def after_error(what, exc, f):
    keep = states()
    try:
        s = states()
        try:
            f()
        except exc:
            pass
        else:
            return False
        need(same_state(s, states()), "%s: the global random state was changed by a run that failed", what)
    finally:
        np.random.set_state(keep[0])
        random.setstate(keep[1])
    return True


def seeds(rng):
    return [int(rng.randint(2 ** 31)), 0, 1, 2 ** 32 - 1][rng.randint(4) if rng.rand() < .4 else 0]


@check(G + "make_extended, make_3dfield", quick=24, bound="sizes 2-24, random seeds, indices and ellipses")
def fields(rng, k, hint):
    from turbustat.simulator.gen_field import make_extended, make_3dfield
    n, s = rng.randint(2, 25), seeds(rng)
    p = rng.uniform(0, 5)
    if k % 2:
        kw = dict(powerlaw=p, randomseed=s, ellip=rng.choice([1., rng.uniform(.1, 1)]), theta=rng.uniform(0, 3))
        if rng.rand() < .5:
            kw.update(return_fft=True, full_fft=bool(rng.randint(2)))
        f, what = lambda s=s: make_extended(n, **dict(kw, randomseed=s)), "make_extended"
        d = lambda: make_extended(n)
    else:
        n = min(n, 12)
        kw = dict(powerlaw=p, amp=rng.uniform(.1, 9), return_fft=bool(rng.randint(2)))
        f, what = lambda s=s: make_3dfield(n, **dict(kw, randomseed=s)), "make_3dfield"
        d = lambda: make_3dfield(n)
    a = reproducible("%s(%d)" % (what, n), f, rng, d)
    reproducible("%s(%d) with its own seed" % (what, n), d, rng, f)
    if n > 3:
        need(not all(np.array_equal(a[0], val(f((s + i) % 2 ** 32))[0]) for i in (1, 2, 3)), "%s: the seed has no influence", what)


def fit(rng, n):
    import statsmodels.api as sm
    x = np.sort(rng.uniform(0, 3, n))
    y = 2 - 1.3 * x + rng.normal(size=n) * .3
    X = sm.add_constant(x)
    return (sm.OLS(y, X) if rng.rand() < .6 else sm.WLS(y, X, weights=rng.uniform(.2, 2, n))).fit(cov_type="HC3")


@check(F + "residual_bootstrap", quick=16, bound="5-30 points, 2-20 resamplings")
def bootstrap(rng, k, hint):
    from turbustat.statistics.fitting_utils import residual_bootstrap
    m, nb, s = fit(rng, rng.randint(5, 31)), rng.randint(2, 21), seeds(rng)
    f = lambda s=s, **kw: residual_bootstrap(m, nboot=nb, seed=s, **kw)
    before = m.params.copy(), m.wresid.copy(), m.model.wendog.copy(), m.model.endog.copy()
    a = reproducible("residual_bootstrap", f, rng, lambda: residual_bootstrap(m, nboot=3))
    b = reproducible("residual_bootstrap samples", lambda: f(return_samps=True), rng)
    need(b[0].shape == (nb, 2) and np.allclose(b[0].std(0), a[0]), "errors are not those of the samples")
    reproducible("residual_bootstrap with its own seed", lambda: residual_bootstrap(m, nboot=nb), rng, f)
    need(not all(np.array_equal(b[0], f((s + i) % 2 ** 32, return_samps=True)) for i in (1, 2, 3)), "residual_bootstrap: the seed has no influence")
    need(all(np.array_equal(x, y) for x, y in zip(before, (m.params, m.wresid, m.model.wendog, m.model.endog))),
         "residual_bootstrap changed the fit")

    class Boom(Exception):
        pass

    class Bad(type(m.model)):
        n = 0

        def fit(self, **kw):
            Bad.n += 1
            if Bad.n > 2:
                raise Boom()
            return super().fit(**kw)
    old, m.model.__class__ = m.model.__class__, Bad
    try:
        need(after_error("residual_bootstrap", Boom, lambda: residual_bootstrap(m, nboot=6, seed=s)), "the failing fit was not used")
    finally:
        m.model.__class__ = old


@check(B + "Bispectrum", quick=10, bound="images of 6-14 pixels a side, 3-12 samples")
def bispectrum(rng, k, hint):
    from turbustat.statistics import Bispectrum
    x = image(rng, (rng.randint(6, 15), rng.randint(6, 15)), nan=rng.choice([0, .05]))
    ns, s, sub = rng.randint(3, 13), seeds(rng), bool(rng.randint(2))

    def f(s=s, seed=True):
        o = Bispectrum((x, hdr2()))
        kw = dict(seed=s) if seed else {}
        if k % 2:
            o.compute_bispectrum(show_progress=False, nsamples=ns, mean_subtract=sub, **kw)
        else:
            o.run(show_progress=False, nsamples=ns, mean_subtract=sub, **kw)
        return o.bispectrum, o.bicoherence, o.tracker
    a = reproducible("Bispectrum", f, rng, lambda: f(s // 2))
    reproducible("Bispectrum with its own seed", lambda: f(seed=False), rng, f)
    need(not all(np.array_equal(a[0], f((s + i) % 2 ** 32)[0]) for i in (1, 2, 3)), "Bispectrum: the seed has no influence")
    o = Bispectrum((x, hdr2()))
    after_error("Bispectrum", ValueError, lambda: o.run(show_progress=False, nsamples=-1, seed=s))


@check(K + "Cramer_Distance.format_data, distance_metric", quick=16, bound="cubes of different sizes up to 6 x 12 x 12")
def cramer(rng, k, hint):
    from turbustat.statistics import Cramer_Distance
    a = rng.normal(size=(rng.randint(2, 7), rng.randint(5, 13), rng.randint(5, 13))) + 1
    b = rng.normal(size=(rng.randint(2, 7), rng.randint(5, 13), rng.randint(5, 13))) + 1
    s = seeds(rng)

    def f(s=s, **kw):
        o = Cramer_Distance(a, b)
        if kw.pop("whole", False):
            o.distance_metric(**kw)
            return o.distance, o.data_matrix1, o.data_matrix2
        o.format_data(**dict(dict(seed=s), **kw))
        return o.data_matrix1, o.data_matrix2
    r = reproducible("Cramer_Distance.format_data", f, rng, lambda: f(s // 2))
    reproducible("Cramer_Distance.distance_metric", lambda: f(whole=True), rng, f)
    if abs(a[0].size - b[0].size) > 12 and min(len(r[0]), len(r[1])) > 1:
        need(not all(all(np.array_equal(x, y) for x, y in zip(r, f((s + i) % 2 ** 32))) for i in (1, 2, 3, 4)), "format_data: the seed has no influence")


@check("turbustat/statistics: fits with bootstrapped errors", quick=6, bound="24-40 pixel images, 5 resamplings")
def fits_with_bootstrap(rng, k, hint):
    from turbustat.statistics import PowerSpectrum, Wavelet, DeltaVariance, SCF
    s = seeds(rng)
    n = rng.randint(24, 41)
    x = image(rng, (n, n), pos=True)
    bk = dict(nboot=5, seed=s)
    which = k % 4
    if which == 0:
        o = PowerSpectrum((x, hdr2()))
        o.compute_pspec()
        o.compute_radial_pspec()
        f = lambda: (o.fit_pspec(bootstrap=True, bootstrap_kwargs=bk), o.slope, o.slope_err)[1:]
    elif which == 1:
        o = Wavelet((x, hdr2()))
        o.compute_transform(show_progress=False)
        f = lambda: (o.fit_transform(bootstrap=True, bootstrap_kwargs=bk), o.slope, o.slope_err)[1:]
    elif which == 2:
        o = DeltaVariance((x, hdr2()))
        o.compute_deltavar(show_progress=False)
        f = lambda: (o.fit_plaw(bootstrap=True, bootstrap_kwargs=bk), o.slope, o.slope_err)[1:]
    else:
        o = SCF((np.stack([x, x * .5, x + 1]), hdr3()), size=5)
        o.compute_surface(show_progress=False)
        o.compute_spectrum()
        f = lambda: (o.fit_plaw(bootstrap=True, **bk), o.slope, o.slope_err)[1:]
    reproducible("fit of %s" % type(o).__name__, f, rng)
