"""Nothing the caller passed in is changed, and a second run gives the same result."""
import copy
import inspect
import io
import os
import shutil
import tempfile
from contextlib import redirect_stdout, redirect_stderr
import numpy as np
import astropy.units as u
from ..bcore import Violation, registry
from .util import need, close, expect, image, hdr2, hdr3, Frozen, same_val
CHECKS, check = registry()
ST = "turbustat/statistics: "


def im(rng, lo=24, hi=33, nan=True):
    sh = tuple(rng.randint(lo, hi, 2))
    x = image(rng, sh, pos=True)
    if nan and rng.rand() < .6:
        x[rng.rand(*sh) < .05] = np.nan
    return x


def cub(rng, nan=True, nch=(6, 13)):
    sh = (rng.randint(*nch),) + tuple(rng.randint(20, 27, 2))
    x = np.abs(image(rng, sh)) + .1
    if nan and rng.rand() < .6:
        x[rng.rand(*sh) < .03] = np.nan
    return x


def result(o, names):
    out = {}
    for n in names:
        v = getattr(o, n)
        out[n] = copy.deepcopy(v.value if hasattr(v, "unit") and not hasattr(v, "colnames") else v)
    return out


def twice(what, make, run, names, **owned):
    """make and run twice on the caller's own objects"""
    fr = Frozen(**owned)
    o = make()
    fr.check(what + " constructor")
    run(o)
    fr.check(what + " run")
    r = result(o, names)
    run(o)
    fr.check(what + " second run")
    compare(what + ": second run of the same object", r, result(o, names))
    p = make()
    run(p)
    fr.check(what)
    compare(what + ": a new object on the same inputs", r, result(p, names))
    return o


def compare(what, a, b):
    for n in a:
        x, y = a[n], b[n]
        if isinstance(x, (list, tuple)):
            ok = len(x) == len(y) and all(close(np.asarray(p), np.asarray(q), 1e-9) for p, q in zip(x, y))
        else:
            ok = close(np.asarray(x, float), np.asarray(y, float), 1e-9)
        need(ok, "%s gives another %s", what, n)


@check(ST + "PowerSpectrum", quick=8, bound="images about 28 a side with NaN, weights with NaN, fit options")
def pspec(rng, k, hint):
    from turbustat.statistics import PowerSpectrum
    x = im(rng)
    w = None
    if k % 2:
        w = rng.rand(*x.shape)
        if rng.rand() < .7:
            w[rng.rand(*x.shape) < .1] = np.nan
    h = hdr2()
    kw = dict(high_cut=.3 / u.pix, fit_2D=bool(rng.rand() < .3), apodize_kernel=[None, "tukey", "hanning"][rng.randint(3)])
    if kw["fit_2D"]:
        kw["fit_2D_kwargs"] = {}
    rk, fk, pk = {}, [{}, {"fit_unbinned": True}, {"weighted_fit": True}][rng.randint(3)], [{}, {"threads": 2}][rng.randint(2)]
    twice("PowerSpectrum", lambda: PowerSpectrum(x, h, weights=w),
          lambda o: o.run(radial_pspec_kwargs=rk, fit_kwargs=fk, pyfftw_kwargs=pk, **kw), ("ps2D", "ps1D", "slope", "slope_err"),
          x=x, w=w, h=h, rk=rk, fk=fk, pk=pk, kw=kw)


@check(ST + "MVC", quick=4, bound="images about 28 a side with NaN")
def mvc(rng, k, hint):
    from turbustat.statistics import MVC
    a, b, c = im(rng), None, None
    b, c = np.abs(rng.normal(size=a.shape)) + 1, np.abs(rng.normal(size=a.shape)) + 1
    h = hdr2()
    b[np.isnan(a)] = np.nan
    c[np.isnan(a)] = np.nan
    kw = dict(apodize_kernel=[None, "tukey"][k % 2])
    rk, fk, pk = {"logspacing": bool(k % 2)}, {}, {"threads": 2}
    twice("MVC", lambda: MVC(a, b, c, h), lambda o: o.run(high_cut=.3 / u.pix, radial_pspec_kwargs=rk, fit_kwargs=fk, pyfftw_kwargs=pk, **kw),
          ("ps2D", "ps1D", "slope"), a=a, b=b, c=c, h=h, rk=rk, fk=fk, pk=pk)


@check(ST + "VCA, VCS", quick=4, bound="cubes about 10 x 24 x 24 with NaN")
def vcavcs(rng, k, hint):
    from turbustat.statistics import VCA, VCS
    x = cub(rng, nch=(16, 24))
    h = hdr3()
    rk, fk, pk, vk = {"logspacing": bool(k % 2)}, {"fit_unbinned": True}, {"threads": 2}, {"threads": 3}
    twice("VCA", lambda: VCA(x, h), lambda o: o.run(high_cut=.3 / u.pix, radial_pspec_kwargs=rk, fit_kwargs=fk, pyfftw_kwargs=pk),
          ("ps2D", "ps1D", "slope"), x=x, h=h, rk=rk, fk=fk, pk=pk)
    twice("VCS", lambda: VCS(x, h), lambda o: o.run(pyfftw_kwargs=vk), ("ps1D", "slope"), x=x, h=h, vk=vk)


@check(ST + "Wavelet, DeltaVariance", quick=4, bound="images about 28 a side with NaN, scales and lags given, weights")
def wavedel(rng, k, hint):
    from turbustat.statistics import Wavelet, DeltaVariance
    x = im(rng)
    h = hdr2()
    s = np.array([2., 3., 5., 8.]) * u.pix
    twice("Wavelet", lambda: Wavelet(x, h, scales=s), lambda o: o.run(), ("values", "slope"), x=x, h=h, s=s)
    w = rng.rand(*x.shape)
    if rng.rand() < .5:
        w[rng.rand(*x.shape) < .05] = np.nan
    L = [np.array([3., 4., 6., 9.]) * u.pix, np.array([3., 4., 6., 9.]), np.array([3., 4., 6., 9.]) * .01 * u.deg][k % 3]
    twice("DeltaVariance", lambda: DeltaVariance(x, h, weights=w, lags=L),
          lambda o: o.run(boundary=["wrap", "fill"][k % 2]), ("delta_var", "slope"), x=x, w=w, L=L, h=h)
    twice("DeltaVariance", lambda: DeltaVariance(x, h, weights=w, lags=L),
          lambda o: o.compute_deltavar(keep_convolve_arrays=True, show_progress=False), ("delta_var", "convolve_arrays", "convolve_weights"), x=x, w=w, L=L, h=h)


@check(ST + "Bispectrum, Genus, Tsallis, StatMoments", quick=4, bound="images about 28 a side with NaN, options given")
def maps(rng, k, hint):
    from turbustat.statistics import Bispectrum, Genus, Tsallis, StatMoments
    x = im(rng)
    h = hdr2()
    twice("Bispectrum", lambda: Bispectrum(x), lambda o: o.run(nsamples=8, seed=3, mean_subtract=bool(k % 2), show_progress=False),
          ("bispectrum", "bicoherence"), x=x)
    r = np.array([1., 2.])
    t = np.linspace(np.nanmin(x), np.nanmax(x), 8)
    twice("Genus", lambda: Genus((x, h), smoothing_radii=r, thresholds=t), lambda o: o.run(min_size=2), ("genus_stats", "thresholds"), x=x, h=h, r=r, t=t)
    L = [1, 2, 4] * u.pix
    twice("Tsallis", lambda: Tsallis(x, h, lags=L), lambda o: o.run(periodic=bool(k % 2)), ("lag_arrays", "lag_distribs", "tsallis_params"), x=x, h=h, L=L)
    w = rng.rand(*x.shape)
    w[rng.rand(*x.shape) < .05] = np.nan
    twice("StatMoments", lambda: StatMoments(x, h, weights=w, radius=3 * u.pix), lambda o: o.run(periodic=bool(k % 2)),
          ("mean", "variance", "skewness", "kurtosis", "mean_hist"), x=x, w=w, h=h)


@check(ST + "PDF", quick=12, bound="images about 28 a side with NaN, weights, bins given or not, normalisations")
def pdf(rng, k, hint):
    from turbustat.statistics import PDF
    x = im(rng)
    w = None
    if k % 2:
        w = rng.rand(*x.shape) + .1
        w[rng.rand(*x.shape) < .05] = np.nan
    b = None if k % 3 else np.linspace(0, np.nanmax(x), 12)
    nt = [None, "standardize", "center", "normalize", "normalize_by_mean"][rng.randint(5)]
    mv = [-np.inf, float(np.nanmedian(x))][rng.randint(2)]

    def run(o):
        o.make_pdf()
        o.make_ecdf()
    twice("PDF", lambda: PDF(x, weights=w, bins=b, min_val=mv, normalization_type=nt), run, ("pdf", "bins", "ecdf"), x=x, w=w, b=b)


@check(ST + "SCF, PCA, Cramer", quick=3, bound="cubes about 10 x 24 x 24 with NaN")
def cubes(rng, k, hint):
    from turbustat.statistics import SCF, PCA, Cramer_Distance
    x = cub(rng)
    h = hdr3()
    L = np.array([-2., 0., 2.])
    twice("SCF", lambda: SCF(x, h, roll_lags=L), lambda o: o.run(boundary=["continuous", "cut"][k % 2], xlow=1 * u.pix), ("scf_surface", "scf_spectrum"), x=x, h=h, L=L)

    def run(o):
        o.compute_pca(mean_sub=bool(k % 2), n_eigs=3, eigen_cut_method="value", min_eigval=0.)
    twice("PCA", lambda: PCA((x, h)), run, ("cov_matrix", "eigvals"), x=x, h=h)
    y = cub(rng)
    y = y[:min(len(x), len(y))]
    x2 = x[:len(y)]

    def runc(o):
        o.format_data(data_format=["spectra", "intensity"][k % 2], num_spec=20, seed=5)
        o.cramer_statistic(n_jobs=1)
    twice("Cramer", lambda: Cramer_Distance(x2, y), runc, ("distance",), x=x2, y=y)


@check(ST + "Dendrogram_Stats", quick=2, thorough=8, bound="images about 28 a side")
def dendro(rng, k, hint):
    from turbustat.statistics import Dendrogram_Stats
    x = im(rng, nan=False)
    h = hdr2()
    md = np.linspace(.05, 1.5, 6) * np.std(x)
    dp = {"min_npix": 3, "min_value": float(np.percentile(x, 10)), "min_delta": .05}
    twice("Dendrogram_Stats", lambda: Dendrogram_Stats(x, h, min_deltas=md, dendro_params=dp),
          lambda o: o.compute_dendro(show_progress=False) or o.make_hists(), ("numfeatures",), x=x, h=h, md=md, dp=dp)


def plots(what, o):
    """a comparison that is also plotted leaves the plot options alone"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    d = tempfile.mkdtemp(prefix="c03plot")
    one, two = {"color": "r", "xunit": u.pix}, {"label": "second"}
    try:
        with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
            o.distance_metric(verbose=True, save_name=os.path.join(d, "plot.png"), plot_kwargs1=one, plot_kwargs2=two)
    except Exception:
        pass    # plots themselves are not the matter here
    finally:
        plt.close("all")
        shutil.rmtree(d)
    need(one == {"color": "r", "xunit": u.pix} and two == {"label": "second"}, "%s: plot options became %s and %s", what, one, two)


@check("turbustat/statistics: distance metrics", quick=4, bound="pairs of images and cubes, option dictionaries", thorough=16)
def distances(rng, k, hint):
    from turbustat import statistics as s
    x, y = im(rng), im(rng)
    h, g = hdr2(), hdr2(pix=.02)
    a, b = (x, h), (y, g)
    w1, w2 = rng.rand(*x.shape), rng.rand(*y.shape)
    w1[2, 2] = np.nan
    p1 = dict(high_cut=.3 / u.pix)
    p2 = dict(high_cut=.3 / u.pix, low_cut=.05 / u.pix)
    c3, d3 = cub(rng, nch=(16, 20)), cub(rng, nch=(16, 20))
    h3, g3 = hdr3(), hdr3()
    e, f = (c3, h3), (d3, g3)

    def one(what, mk, **own):
        fr = Frozen(x=x, y=y, h=h, g=g, c3=c3, d3=d3, h3=h3, g3=g3, **own)
        r1 = mk().distance_metric()
        fr.check(what)
        r2 = mk().distance_metric()
        fr.check(what)
        q1, q2 = {}, {}
        for n in ("distance", "curve_distance", "slope_distance", "hellinger_distance", "ks_distance", "mean_distance",
                  "kurtosis_distance", "skewness_distance", "surface_distance", "num_distance", "histogram_distance"):
            if hasattr(r1, n):
                q1[n], q2[n] = getattr(r1, n), getattr(r2, n)
        need(q1, what + ": no distance")
        compare(what + ": the second comparison", q1, q2)
        r1.distance_metric()
        compare(what + ": the second comparison of the same object", q1, {n: getattr(r1, n) for n in q1})
        fr.check(what)
        if k == 0 and "plot_kwargs1" in inspect.signature(r1.distance_metric).parameters:
            plots(what, r1)
    fk, fk2 = {"brk": None}, {}
    pk = dict(radial_pspec_kwargs={}, fit_kwargs=[{}, {"brk": .1 / u.pix}, {"weighted_fit": True}][rng.randint(3)], fit_2D=False)
    pk2 = dict(radial_pspec_kwargs={}, fit_2D=False, low_cut=.05 / u.pix)
    one("PSpec_Distance", lambda: s.PSpec_Distance(a, b, weights1=w1, weights2=w2, high_cut=.3 / u.pix, pspec_kwargs=pk, pspec2_kwargs=pk2), w1=w1, w2=w2, pk=pk, pk2=pk2)
    dk, L = dict(boundary="wrap"), np.array([3., 4., 5.]) * u.pix
    one("DeltaVariance_Distance", lambda: s.DeltaVariance_Distance(a, b, lags=L, weights1=w1, weights2=w2, delvar_kwargs=dk), L=L, dk=dk, w1=w1, w2=w2)
    fk = {}
    one("Wavelet_Distance", lambda: s.Wavelet_Distance(a, b, fit_kwargs=fk), fk=fk)
    one("StatMoments_Distance", lambda: s.StatMoments_Distance(a, (x, g), radius=4 * u.pix, weights1=w1, periodic1=False), w1=w1)
    sk = dict(nsamples=6, seed=4, show_progress=False)
    one("Bispectrum_Distance", lambda: s.Bispectrum_Distance(a, (x * 2, h), stat_kwargs=sk), sk=sk)
    gk = dict(min_size=2)
    one("Genus_Distance", lambda: s.Genus_Distance(a, b, genus_kwargs=gk), gk=gk)
    one("PDF_Distance", lambda: s.PDF_Distance(a, b, do_fit=False, normalization_type="standardize", weights1=w1, weights2=w2), w1=w1, w2=w2)
    ck = dict(boundary="continuous")
    one("SCF_Distance", lambda: s.SCF_Distance(e, f, size=3, scf_kwargs=ck) if "scf_kwargs" in s.SCF_Distance.__init__.__code__.co_varnames else s.SCF_Distance(e, f, size=3), ck=ck)
    vk = {}
    one("VCA_Distance", lambda: s.VCA_Distance(e, f, high_cut=.3 / u.pix, vca_kwargs=vk) if "vca_kwargs" in s.VCA_Distance.__init__.__code__.co_varnames else s.VCA_Distance(e, f, high_cut=.3 / u.pix), vk=vk)
    one("VCS_Distance", lambda: s.VCS_Distance(e, f, fit_kwargs=vk), vk=vk)
    one("Cramer", lambda: s.Cramer_Distance(c3[:10], d3[:10]))
    # dendrograms
    md = np.linspace(.05, 1.5, 6) * np.nanstd(x)
    q = dict(min_npix=3, min_value=0.)
    dkw = dict(make_hists=True, show_progress=False) if "show_progress" in s.Dendrogram_Stats.run.__code__.co_varnames else dict(make_hists=True)
    xx = np.nan_to_num(x)
    yy = np.nan_to_num(y)
    one("Dendrogram_Distance", lambda: s.Dendrogram_Distance((xx, h), (yy, g), min_deltas=md, min_features=2, nbins=5, dendro_params=q, dendro_kwargs=dkw), xx=xx, yy=yy, md=md, q=q, dkw=dkw)
