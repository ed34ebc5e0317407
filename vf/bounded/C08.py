"""Distances on real objects: formula, sign, symmetry, zero."""
from types import SimpleNamespace as NS
import importlib
import numpy as np
import astropy.units as u
from ..bcore import Violation, registry, bare
from .util import need, close, expect, image, hdr2, hdr3
CHECKS, check = registry()
P = "turbustat/statistics/"


def nn(d, what, tol=0.):
    d = float(d)
    need(np.isnan(d) or d >= -tol, "%s: distance %r is negative", what, d)


def hr(hint, *names):
    from fractions import Fraction
    out = []
    for n in names:
        try:
            v = float(Fraction(str(hint[n]).replace("?", "")))
        except Exception:
            v = None
        out.append(v)
    return out


SL = [("pspec_bispec.pspec", "PSpec_Distance", "pspec1", "pspec2", "distance", "distance_metric"),
      ("vca_vcs.vca", "VCA_Distance", "vca1", "vca2", "distance", "distance_metric"),
      ("mvc.mvc", "MVC_Distance", "mvc1", "mvc2", "distance", "distance_metric"),
      ("wavelets.wavelet_transform", "Wavelet_Distance", "wt1", "wt2", "distance", "distance_metric"),
      ("delta_variance.delta_variance", "DeltaVariance_Distance", "delvar1", "delvar2", "slope_distance", "distance_metric"),
      ("dendrograms.dendro_stats", "Dendrogram_Distance", "dendro1", "dendro2", "num_distance", "numfeature_stat")]


@check(P + "*: slope distances (%s)" % ", ".join(s[1] for s in SL), quick=60, bound="random slopes and errors, set directly")
def slope_formula(rng, k, hint):
    for m, cn, a1, a2, res, run in SL:
        cls = getattr(importlib.import_module("turbustat.statistics." + m), cn)
        s = rng.uniform(-5, 5, 2)
        e = rng.uniform(0.001, 2, 2) * 10. ** rng.randint(-3, 3, 2)
        if k % 7 == 0:
            s[1] = s[0]
        if k % 11 == 3:
            e[rng.randint(2)] = 0.
        if hint:
            for n, v in enumerate(hr(hint, "s1", "s2")):
                s[n] = s[n] if v is None else v
            for n, v in enumerate(hr(hint, "s1err", "s2err")):
                e[n] = e[n] if v is None else v
        d = []
        for a, b in ((0, 1), (1, 0)):
            o = bare(cls)
            setattr(o, a1, NS(slope=s[a], slope_err=e[a], tail_slope=s[a], tail_slope_err=e[a]))
            setattr(o, a2, NS(slope=s[b], slope_err=e[b], tail_slope=s[b], tail_slope_err=e[b]))
            o._common_lags = False
            getattr(o, run)()
            d.append(getattr(o, res))
        what = "%s slopes %s errors %s" % (cn, s, e)
        need(close(d[0], abs(s[0] - s[1]) / np.hypot(*e)), "%s: %r", what, d[0])
        need(close(d[0], d[1]), "%s: not symmetric %r", what, d)
        nn(d[0], what)


@check(P + "vca_vcs/vcs.py: VCS_Distance.distance_metric", quick=60, bound="one or two slopes per dataset, set directly")
def vcs_formula(rng, k, hint):
    from turbustat.statistics.vca_vcs.vcs import VCS_Distance
    st = [NS(slope=rng.uniform(-5, 5, n), slope_err=rng.uniform(.01, 2, n), brk=rng.rand(), brk_err=rng.rand() + .01)
          for n in ((k % 2) + 1, ((k // 2) % 2) + 1)]
    r = []
    for a, b in ((0, 1), (1, 0), (0, 0)):
        o = bare(VCS_Distance)
        o.vcs1, o.vcs2 = st[a], st[b]
        o.distance_metric()
        r.append(o)
    a, b = st
    L = abs(a.slope[0] - b.slope[0]) / np.hypot(a.slope_err[0], b.slope_err[0])
    need(close(r[0].large_scale_distance, L), "large scale %r", r[0].large_scale_distance)
    if a.slope.size == b.slope.size == 2:
        S_ = abs(a.slope[1] - b.slope[1]) / np.hypot(a.slope_err[1], b.slope_err[1])
        need(close(r[0].small_scale_distance, S_), "small scale %r", r[0].small_scale_distance)
        need(close(r[0].break_distance, abs(a.brk - b.brk) / np.hypot(a.brk_err, b.brk_err)), "break distance")
        L = L + S_
    else:
        need(np.isnan(r[0].small_scale_distance) and np.isnan(r[0].break_distance), "single slope without NaN")
    need(close(r[0].distance, L), "distance %r", r[0].distance)
    need(close(r[0].distance, r[1].distance), "not symmetric")
    need(r[2].distance == 0, "equal statistic: %r", r[2].distance)


def ref_hell(a, b, w=1.0):
    d = np.sqrt(a) - np.sqrt(b)
    return w / np.sqrt(2) * np.sqrt(np.sum(d[np.isfinite(d)] ** 2))


@check(P + "stats_utils.py: hellinger; dendro_stats.py: hellinger_stat; PDF_Distance", quick=60,
       bound="histograms of up to 40 bins with zero and missing bins")
def histograms(rng, k, hint):
    from turbustat.statistics.stats_utils import hellinger
    from turbustat.statistics.dendrograms.dendro_stats import hellinger_stat
    from turbustat.statistics.pdf.compare_pdf import PDF_Distance
    n = rng.randint(1, 40)
    a, b = rng.rand(2, n)
    if n > 3:
        a[rng.randint(n)] = 0
        b[rng.randint(n)] = 0
    w = rng.uniform(.01, 3)
    A, B = a.copy(), b.copy()
    d = hellinger(a, b, bin_width=w)
    need(close(d, ref_hell(A, B, w)), "hellinger %r for %s %s", d, A, B)
    need(close(d, hellinger(b, a, bin_width=w)), "hellinger not symmetric")
    need(hellinger(a, a, bin_width=w) == 0, "hellinger of equal histograms")
    need(np.array_equal(a, A) and np.array_equal(b, B), "hellinger changed its input")
    if k % 2:
        a[rng.randint(n)] = np.nan
        need(close(hellinger(a, b), ref_hell(a, b), rtol=1e-8), "hellinger with missing bins")
    x, y = rng.rand(2, rng.randint(1, 6), n)
    x[:, -1] = np.nan
    y[:, -1] = np.nan
    h = hellinger_stat(x, y)
    need(close(h, np.mean([ref_hell(p, q) for p, q in zip(x, y)])), "hellinger_stat %r", h)
    need(close(h, hellinger_stat(y, x)) and hellinger_stat(x, x) == 0, "hellinger_stat symmetry or zero")
    p = [NS(pdf=A + 1e-3, data=rng.normal(size=50), model_params=rng.rand(2), model_stderrs=rng.rand(2) + .01),
         NS(pdf=B + 1e-3, data=rng.normal(size=60), model_params=rng.rand(2), model_stderrs=rng.rand(2) + .01)]
    r = []
    for i, j in ((0, 1), (1, 0), (0, 0)):
        o = bare(PDF_Distance)
        o.PDF1, o.PDF2, o._do_fit = p[i], p[j], True
        o.distance_metric()
        r.append((o.hellinger_distance, o.ks_distance, o.lognormal_distance))
        for v in r[-1]:
            nn(v, "PDF distance")
    for q, (st, at) in enumerate((("hellinger", "hellinger_distance"), ("ks", "ks_distance"), ("lognormal", "lognormal_distance"))):
        o = bare(PDF_Distance)
        o.PDF1, o.PDF2, o._do_fit = p[0], p[1], True
        o.distance_metric(statistic=st)
        need(close(getattr(o, at), r[0][q]), "PDF %s alone is %r, with the others %r", st, getattr(o, at), r[0][q])
    need(close(r[0][0], ref_hell(p[0].pdf / p[0].pdf.sum(), p[1].pdf / p[1].pdf.sum())), "PDF hellinger %r", r[0][0])
    need(close(r[0][2], abs(p[0].model_params[0] - p[1].model_params[0]) /
               np.hypot(p[0].model_stderrs[0], p[1].model_stderrs[0])), "PDF lognormal %r", r[0][2])
    s = np.sort(np.concatenate([p[0].data, p[1].data]))
    ks = np.max(np.abs(np.searchsorted(np.sort(p[0].data), s, side="right") / 50. -
                       np.searchsorted(np.sort(p[1].data), s, side="right") / 60.))
    need(close(r[0][1], ks), "PDF KS %r instead of %r", r[0][1], ks)
    need(close(r[0], r[1]), "PDF distances not symmetric: %s %s", r[0], r[1])
    need(r[2] == (0, 0, 0), "PDF distances of equal PDFs: %s", r[2])


@check(P + "scf, pca, bispec, delta_variance, genus: surface and curve distances", quick=60,
       bound="surfaces up to 15x15, curves up to 30 points, set directly")
def surfaces(rng, k, hint):
    from turbustat.statistics.scf.scf import SCF_Distance
    from turbustat.statistics.pca.pca import PCA_Distance
    from turbustat.statistics.pspec_bispec.bispec import Bispectrum_Distance
    from turbustat.statistics.delta_variance.delta_variance import DeltaVariance_Distance
    from turbustat.statistics.genus.genus import Genus_Distance
    n = rng.randint(1, 16)
    a, b = rng.rand(2, n, n)
    if k % 3 != 1:          # exact zeros and ones, anti-correlation, equal entries
        for x in (a, b):
            x[rng.rand(n, n) < .3] = rng.choice([0., 1.])
            x[rng.rand(n, n) < .1] *= -1
        eq = rng.rand(n, n) < .2
        a[eq] = b[eq]
    for wt in (True, False):
        r = []
        for x, y in ((a, b), (b, a), (a, a)):
            o = bare(SCF_Distance)
            o.scf1, o.scf2, o.size = NS(scf_surface=x), NS(scf_surface=y), n
            o.distance_metric(weighted=wt)
            r.append(o.distance)
        i, j = np.indices((n, n)) - n // 2
        w = np.ones((n, n))
        if wt:
            d = np.hypot(i, j)
            d[d == 0] = 1
            w = 1 / d
        need(close(r[0], np.sqrt(np.sum(w * (a - b) ** 2) / w.sum())), "SCF distance %r (weighted %s, size %d)", r[0], wt, n)
        need(close(r[0], r[1]) and r[2] == 0, "SCF distance symmetry or zero")
    # PCA
    m = n + rng.randint(1, 10)
    e1, e2 = np.sort(rng.rand(2, m))[:, ::-1] + .01
    e2 = np.append(e2, rng.rand(rng.randint(0, 4)) * .001)
    ne = rng.randint(2, m + 1)
    for ms in (True, False):
        r = []
        for x, y in ((e1, e2), (e2, e1), (e1, e1)):
            o = bare(PCA_Distance)
            o.pca1, o.pca2, o._n_eigs, o._mean_sub = NS(eigvals=x), NS(eigvals=y), ne, ms
            o.distance_metric()
            r.append(o.distance)
        s = slice(0 if ms else 1, ne)
        need(close(r[0], np.sqrt(np.sum((e1[s] / e1[s].sum() - e2[s] / e2[s].sum()) ** 2))), "PCA distance %r", r[0])
        need(close(r[0], r[1]) and r[2] == 0, "PCA distance symmetry or zero")
    # bispectrum
    c2 = b if k % 3 else rng.rand(n + 1, n + 1)
    r = []
    for x, y in ((a, c2), (c2, a), (a, a)):
        o = bare(Bispectrum_Distance)
        o.bispec1, o.bispec2 = NS(bicoherence=x), NS(bicoherence=y)
        o.distance_metric()
        r.append((o.surface_distance, o.mean_distance))
    need(close(r[0][1], abs(a.mean() - c2.mean())), "bispectrum mean distance")
    need(close(r[0][0], np.sqrt(np.sum((a - c2) ** 2)) if k % 3 else np.nan), "bispectrum surface distance %r", r[0][0])
    need(close(r[0], r[1]) and r[2] == (0, 0), "bispectrum distance symmetry or zero")
    # delta-variance
    N = rng.randint(4, 30)
    lags = np.sort(rng.uniform(1, 50, N))
    d1, d2 = 10. ** rng.uniform(-3, 3, (2, N))
    if k % 2:
        d1[rng.randint(N)] = np.nan
        d2[rng.randint(N)] = rng.choice([0., -1., np.nan])
    lo, hi = np.sort(rng.choice(lags, 2))
    s = rng.uniform(1, 2, 2)
    r = []
    same_rng = k % 5 != 4
    for x, y in ((0, 1), (1, 0), (0, 0)):
        o = bare(DeltaVariance_Distance)
        for nm, q in (("delvar1", x), ("delvar2", y)):
            setattr(o, nm, NS(delta_var=(d1, d2)[q], lags=lags * u.pix,
                              fit_range=((lo if same_rng or q == 0 else lo * .9) * u.pix, hi * u.pix),
                              slope=s[q], slope_err=.1 + q))
        o._common_lags = k % 7 != 6
        o.distance_metric()
        r.append(o.curve_distance)
    if k % 7 == 6 or not same_rng:
        need(np.isnan(r[0]) and np.isnan(r[1]), "delta-variance curves that cannot be compared: %r", r)
    else:
        with np.errstate(all="ignore"):
            ok = (lags >= lo) & (lags <= hi) & (d1 > 0) & (d2 > 0)
            ref = np.sqrt(np.sum((np.log10(d1[ok] / d1[ok].sum()) - np.log10(d2[ok] / d2[ok].sum())) ** 2))
        need(close(r[0], ref), "delta-variance curve distance %r not %r", r[0], ref)
        need(close(r[0], r[1]) and (r[2] == 0), "delta-variance curve distance symmetry or zero")
    # genus
    na, nb = rng.randint(5, 40, 2)
    g = [NS(thresholds=np.sort(rng.uniform(-3, 3, na)), genus_stats=rng.normal(size=(1, na)), data=np.zeros((5, 6))),
         NS(thresholds=np.sort(rng.uniform(-3, 3, nb)), genus_stats=rng.normal(size=(1, nb)), data=np.zeros((7, 4)))]
    r = []
    for x, y in ((0, 1), (1, 0), (0, 0)):
        o = bare(Genus_Distance)
        o.genus1, o.genus2, o.scale = g[x], g[y], 1
        o.distance_metric()
        r.append(o.distance)
        nn(r[-1], "genus")
    need(close(r[0], r[1], 1e-6) and r[2] == 0, "genus distance symmetry or zero: %s", r)


def cube(rng, n=16, ch=8):
    c = rng.normal(size=(ch, n, n))
    f = np.fft.fftn(c)
    kk = np.sqrt(sum(np.fft.fftfreq(s).reshape([-1 if i == d else 1 for i in range(3)]) ** 2 for d, s in enumerate(c.shape)))
    kk[0, 0, 0] = 1
    c = np.fft.ifftn(f * kk ** -1.).real
    return c - c.min() + .1


def e2e(name, make, zero=1e-9, rtol=1e-6):
    # zero: rounding allowed at zero (Cramer takes the root of rounded distances)
    def f(rng, k, hint):
        mk, attrs = make(rng)
        a, b = mk[0], mk[1]
        got = []
        for x, y in ((a, b), (b, a), (a, a)):
            o = mk[2](x, y)
            o.distance_metric()
            got.append([float(getattr(o, at)) for at in attrs])
            for at, v in zip(attrs, got[-1]):
                nn(v, "%s.%s" % (name, at), zero)
        need(close(got[0], got[1], rtol, zero), "%s: %s is %s, in the other order %s", name, attrs, got[0], got[1])
        need(all(abs(v) < zero or np.isnan(v) for v in got[2]), "%s: %s of equal datasets is %s", name, attrs, got[2])
    f.__name__ = "run_" + name
    check(P + "*: %s, from data to distance" % name, quick=4, bound="16x16 to 40x40 maps, 8x16x16 cubes, equal headers")(f)


def _cubes(rng):
    h = hdr3()
    return (cube(rng), h), (cube(rng), h)


def _maps(rng, n=32):
    h = hdr2()
    m = n if rng.rand() < .5 else n + 5
    return (image(rng, (n, n), pos=True), h), (image(rng, (m, n), pos=True), h)


def _stat(cls, mod, make, attrs, **kw):
    def f(rng):
        c = getattr(importlib.import_module("turbustat.statistics." + mod), cls)
        a, b = make(rng)
        return (a, b, lambda x, y: c(x, y, **kw)), attrs
    e2e(cls, f, 1e-3 if cls == "Cramer_Distance" else 1e-9)


_stat("PSpec_Distance", "pspec_bispec.pspec", _maps, ["distance"])
_stat("Wavelet_Distance", "wavelets.wavelet_transform", _maps, ["distance"])
_stat("DeltaVariance_Distance", "delta_variance.delta_variance", _maps, ["curve_distance", "slope_distance"])
_stat("Genus_Distance", "genus.genus", _maps, ["distance"])
_stat("Bispectrum_Distance", "pspec_bispec.bispec", lambda r: _maps(r, 16), ["surface_distance", "mean_distance"])
_stat("StatMoments_Distance", "stat_moments.highstatmoments", lambda r: _maps(r, 24), ["kurtosis_distance", "skewness_distance"],
      radius=3 * u.pix, nbins=12)
_stat("PDF_Distance", "pdf.compare_pdf", lambda r: [x[0] for x in _maps(r)], ["hellinger_distance", "ks_distance"], do_fit=False)
_stat("SCF_Distance", "scf.scf", _cubes, ["distance"], size=5, show_progress=False)
_stat("VCA_Distance", "vca_vcs.vca", _cubes, ["distance"])
_stat("VCS_Distance", "vca_vcs.vcs", lambda r: ((cube(r, 8, 32), hdr3()), (cube(r, 8, 32), hdr3())), ["distance"])
_stat("PCA_Distance", "pca.pca", _cubes, ["distance"], n_eigs=4)
_stat("Cramer_Distance", "cramer.cramer", _cubes, ["distance"])


@check(P + "dendrograms/dendro_stats.py: Dendrogram_Distance.histogram_stat", quick=15, bound="2..6 levels of 4..60 features, number of bins given or not")
def dendro_histograms(rng, k, hint):
    from turbustat.statistics.dendrograms.dendro_stats import Dendrogram_Distance
    lev = rng.randint(2, 7)
    vals = [[rng.gamma(2., size=rng.randint(4, 61)) for _ in range(lev)] for _ in range(2)]
    nb = "best" if rng.rand() < .6 else int(rng.randint(2, 12))

    def make(a, b):
        o = bare(Dendrogram_Distance)
        o.nbins, o.cutoff = nb, lev
        o.dendro1, o.dendro2 = (NS(numfeatures=np.array([len(x) for x in v]), values=v, min_deltas=np.arange(lev)) for v in (a, b))
        return o
    ref = []
    for a, b in zip(*vals):
        a, b = ((x - x.mean()) / x.std() for x in (a, b))
        n = int(np.sqrt((a.size + b.size) / 2.)) if nb == "best" else nb
        e = np.linspace(min(a.min(), b.min()), max(a.max(), b.max()), n + 1)
        p, q = (np.histogram(x, e)[0] / x.size for x in (a, b))
        ref.append(np.sqrt(((np.sqrt(p) - np.sqrt(q)) ** 2).sum() / 2))
    o = make(*vals)
    o.histogram_stat()
    need(close(o.histogram_distance, np.mean(ref), 1e-9), "distance %s of feature histograms instead of %s", o.histogram_distance, np.mean(ref))
    o.histogram_stat()
    need(close(o.histogram_distance, np.mean(ref), 1e-9), "distance %s of feature histograms in a second comparison instead of %s", o.histogram_distance, np.mean(ref))
    r, z = make(vals[1], vals[0]), make(vals[0], vals[0])
    r.histogram_stat()
    z.histogram_stat()
    need(close(r.histogram_distance, np.mean(ref), 1e-9) and z.histogram_distance == 0, "distance %s in the other order, %s of equal data", r.histogram_distance, z.histogram_distance)


@check(P + "distances of datasets with options of their own", quick=6, bound="one pair of 20x22 maps or 12x20x22 cubes per metric")
def own_options(rng, k, hint):
    from turbustat import statistics as s
    h, h3 = hdr2(), hdr3()
    x, y = (np.exp(image(rng, (20, 22))) for _ in range(2))
    w, v = rng.rand(20, 22) + .1, rng.rand(20, 22) + .1
    cx, cy = (np.exp(rng.normal(size=(12, 20, 22))) for _ in range(2))
    lo, hi = [.06 / u.pix, .08 / u.pix], [.4 / u.pix, .35 / u.pix]
    p, q = {"logspacing": False}, {"theta_0": .3 * u.rad, "delta_theta": 1.5 * u.rad}
    kind = k % 6
    if kind == 0:
        one = lambda i, j: s.PSpec_Distance(((x, h), (y, h))[i], ((x, h), (y, h))[j], weights1=(w, v)[i], weights2=(w, v)[j], low_cut=[lo[i], lo[j]],
                                            high_cut=[hi[i], hi[j]], pspec_kwargs=dict(radial_pspec_kwargs=(p, q)[i]), pspec2_kwargs=dict(radial_pspec_kwargs=(p, q)[j]))
    elif kind == 1:
        d = [dict(centroid=(a, h), moment0=(b, h), linewidth=(a + b, h)) for a, b in ((x, y), (v, w))]
        one = lambda i, j: s.MVC_Distance(d[i], d[j], low_cut=[lo[i], lo[j]], high_cut=[hi[i], hi[j]], pspec_kwargs=(p, q)[i], pspec2_kwargs=(p, q)[j])
    elif kind == 2:
        one = lambda i, j: s.VCA_Distance(((cx, h3), (cy, h3))[i], ((cx, h3), (cy, h3))[j], low_cut=[lo[i], lo[j]], high_cut=[hi[i], hi[j]],
                                          radial_pspec_kwargs=(p, q)[i], radial_pspec_kwargs2=(p, q)[j])
    elif kind == 3:
        f = {"weighted_fit": True}, {}
        one = lambda i, j: s.Wavelet_Distance(((x, h), (y, h))[i], ((x, h), (y, h))[j], xlow=[(2., 3.)[i] * u.pix, (2., 3.)[j] * u.pix],
                                              fit_kwargs={"fit_kwargs": f[i]}, fit_kwargs2={"fit_kwargs": f[j]})
    elif kind == 4:
        f = {"boundary": "wrap"}, {"boundary": "fill", "xhigh": 8 * u.pix}
        one = lambda i, j: s.DeltaVariance_Distance(((x, h), (y, h))[i], ((x, h), (y, h))[j], weights1=(w, v)[i], weights2=(w, v)[j], lags=np.array([3., 4., 5., 6., 8., 9.]) * u.pix,
                                                    delvar_kwargs=f[i], delvar2_kwargs=f[j])
    else:
        one = lambda i, j: s.StatMoments_Distance(((x, h), (y, h))[i], ((x, h), (y, h))[j], radius=3 * u.pix, weights1=(w, v)[i], weights2=(w, v)[j],
                                                  periodic1=(True, False)[i], periodic2=(True, False)[j])
    got = []
    for i, j in ((0, 1), (1, 0)):
        o = one(i, j).distance_metric()
        got.append([getattr(o, n) for n in ("distance", "curve_distance", "slope_distance", "kurtosis_distance", "skewness_distance") if hasattr(o, n)])
    need(len(got[0]) and close(np.array(got[0], float), np.array(got[1], float), 1e-6), "distances %s, and %s with the datasets and their options exchanged (%s)",
         got[0], got[1], type(o).__name__)


@check(P + "mvc, dendrograms: from data to distance", quick=3, bound="one pair of 32x32 maps")
def run_mvc_dendro(rng, k, hint):
    from turbustat.statistics.mvc.mvc import MVC_Distance
    from turbustat.statistics.dendrograms.dendro_stats import Dendrogram_Distance
    h = hdr2()

    def prods():
        return {n: (image(rng, (32, 32), pos=True), h) for n in ("centroid", "moment0", "linewidth")}
    a, b = prods(), prods()
    d = [MVC_Distance(x, y).distance_metric().distance for x, y in ((a, b), (b, a), (a, a))]
    for v in d:
        nn(v, "MVC")
    need(close(d[0], d[1], 1e-6) and d[2] == 0, "MVC distances %s", d)
    x, y = (image(rng, (32, 32), pos=True) for _ in range(2))
    got = []
    for p, q in ((x, y), (y, x), (x, x)):
        o = Dendrogram_Distance((p, h), (q, h), min_features=5, min_deltas=np.linspace(.01, .6, 8) * x.std())
        o.distance_metric()
        got.append((o.histogram_distance, o.num_distance))
    need(close(got[0], got[1], 1e-6) and np.all(np.nan_to_num(got[2]) == 0), "dendrogram distances %s", got)
