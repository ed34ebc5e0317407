"""Real input objects in every accepted form."""
import numpy as np
import astropy.units as u
from astropy.io import fits
from ..bcore import Violation, registry
from .util import need, close, expect, image, hdr2, hdr3, Frozen
CHECKS, check = registry()
I = "turbustat/io/input_base.py: "
B = "turbustat/statistics/base_statistic.py: "


def forms(rng, nd):
    from spectral_cube import SpectralCube, Projection, Slice
    from astropy.wcs import WCS
    sh = tuple(rng.randint(20, 27, nd)) if nd == 2 else (rng.randint(4, 9),) + tuple(rng.randint(18, 24, 2))
    dt = [np.float64, np.float32][rng.randint(2)]
    x = (image(rng, sh) + 3).astype(dt)
    if rng.rand() < .6:
        x[rng.rand(*sh) < .05] = np.nan
    h = (hdr2 if nd == 2 else hdr3)(pix=float(rng.choice([.01, .002])), shape=sh)
    out = {"primary": fits.PrimaryHDU(x, h), "image": fits.ImageHDU(x, h), "tuple": (x, h), "list": [x, h]}
    if nd == 2:
        out["projection"] = Projection(x * u.K, wcs=WCS(h), header=h, meta={})
        out["slice"] = Slice(x * u.K, wcs=WCS(h), header=h, meta={})
    else:
        out["cube"] = SpectralCube.read(fits.PrimaryHDU(x, h))
    return x, h, out


def vals(d):
    return np.asarray(d.value if hasattr(d, "unit") else d)


def cards(h):
    return {k: h[k] for k in ("CDELT1", "CDELT2", "CRVAL1", "CTYPE1", "CTYPE2", "CRPIX1")}


def same_header(a, b):
    p, q = cards(a), cards(b)
    return all(p[k] == q[k] if isinstance(p[k], str) else close(p[k], q[k], 1e-9) for k in p)


@check(I + "input_data", quick=12, bound="2-D and 3-D maps about 20 a side with NaN, both float widths, every form")
def accepted(rng, k, hint):
    from turbustat.io import input_data
    x, h, fs = forms(rng, 2 + k % 2)
    fr = Frozen(x=x)
    for nm, f in fs.items():
        for cp in (False, True):
            d, hh = input_data(f, need_copy=cp)
            need(close(vals(d), x, 0), "%s: other values", nm)
            need(same_header(hh, h), "%s: other header", nm)
            d = input_data(f, no_header=True, need_copy=cp)
            need(close(vals(d), x, 0), "%s without header: other values", nm)
    d = input_data(x, no_header=True)
    need(close(d, x, 0), "array: other values")
    for nm, f in (("primary", fs["primary"]), ("image", fs["image"]), ("array", x)):
        src = f if isinstance(f, np.ndarray) else f.data
        d = input_data(f, no_header=True, need_copy=True)
        need(not np.shares_memory(d, src), "%s: the copy shares memory", nm)
    for q in (x * u.K, x * u.Jy / u.beam):
        for nm, f in (("array", q), ("tuple", (q, h)), ("list", [q, h])) + ((("projection", fs["projection"]), ("slice", fs["slice"])) if x.ndim == 2 else ()):
            for cp in (False, True):
                d = input_data(f, no_header=True, need_copy=cp)
                un = q.unit if nm in ("array", "tuple", "list") else u.K
                need(getattr(d, "unit", None) == un and close(vals(d), x, 0), "%s in %s came out in %s", nm, un, getattr(d, "unit", None))
    for nm, f in fs.items():
        if nm not in ("projection", "slice", "cube"):
            need(not hasattr(input_data(f, no_header=True), "unit"), "%s got a unit", nm)
    fr.check("input_data")
    for nm, bad in (("array", x), ("one", (x,)), ("three", [x, h, h]), ("string", "a.fits"), ("none", None),
                    ("quantity", x * u.K), ("dict", {"d": x})):
        expect(TypeError, nm, input_data, bad)


@check(B + "BaseStatisticMixIn.input_data_header", quick=12, bound="as above")
def mixin(rng, k, hint):
    from turbustat.statistics.base_statistic import BaseStatisticMixIn
    x, h, fs = forms(rng, 2 + k % 2)
    h2 = h.copy()
    h2["CDELT2"] = h["CDELT2"] * 3
    h2["CDELT1"] = h["CDELT1"] * 3
    for nm, f in list(fs.items()) + [("array", x)]:
        for sep in (False, True):
            o = BaseStatisticMixIn()
            if nm == "array" and not sep:
                expect(ValueError, "array without header", o.input_data_header, x, None)
                continue
            o.input_data_header(f, h2 if sep else None)
            need(close(vals(o.data), x.squeeze(), 0), "%s: other values", nm)
            need(same_header(o.header, h2 if sep else h), "%s, header %s: other header", nm, "given" if sep else "own")
    for nm, f in (("array", x * u.K), ("tuple", (x * u.K, h))):
        o = BaseStatisticMixIn()
        o.input_data_header(f, h)
        need(getattr(o.data, "unit", None) == u.K and close(vals(o.data), x.squeeze(), 0), "%s in K came out in %s", nm, getattr(o.data, "unit", None))
    for bad in ("x", {"a": 1}, 2):
        expect(TypeError, "header", BaseStatisticMixIn().input_data_header, x, bad)
        expect(TypeError, "header in tuple", BaseStatisticMixIn().input_data_header, (x, bad), None)
    # axes of length one go, wherever they are
    if k % 2 == 0:
        n, m = x.shape
        for sh in ((1, n, m), (n, 1, m), (n, m, 1), (1, n, 1, m), (1, 1, n, m), (1, n, m, 1)):
            y = x.reshape(sh)
            for nm, f in (("array", y), ("tuple", (y, h)), ("hdu", fits.PrimaryHDU(y, h))):
                o = BaseStatisticMixIn()
                o.input_data_header(f, h)
                need(close(vals(o.data), x, 0), "%s of shape %s: the data have shape %s", nm, sh, o.data.shape)
    for nm, f in (("hdu", fs["primary"]), ("array", x)):
        o = BaseStatisticMixIn()
        for hh in (h, None):
            if nm == "array" and hh is None:
                continue
            o.input_data_header(f, hh, need_copy=True)
            need(not np.shares_memory(o.data, x if nm == "array" else f.data), "%s: the copy shares memory", nm)


def _stats():
    from turbustat import statistics as s
    return {2: [("PowerSpectrum", lambda f, **k: s.PowerSpectrum(f, **k), True, True),
                ("MVC", lambda f: s.MVC(f, f, f), False, True),
                ("Wavelet", lambda f, **k: s.Wavelet(f, **k), True, True),
                ("DeltaVariance", lambda f, **k: s.DeltaVariance(f, **k), True, True),
                ("Bispectrum", lambda f: s.Bispectrum(f), False, False),
                ("Tsallis", lambda f, **k: s.Tsallis(f, **k), True, True),
                ("StatMoments", lambda f, **k: s.StatMoments(f, **k), True, True),
                ("Genus", lambda f: s.Genus(f), False, True),
                ("Dendrogram_Stats", lambda f, **k: s.Dendrogram_Stats(f, min_deltas=np.array([.1, .2]), **k), True, True)],
            3: [("SCF", lambda f, **k: s.SCF(f, **k), True, True),
                ("VCA", lambda f, **k: s.VCA(f, **k), True, True),
                ("VCS", lambda f, **k: s.VCS(f, **k), True, True),
                ("PCA", lambda f: s.PCA(f), False, True)]}


@check("turbustat/statistics: constructors", quick=10, bound="every statistic, every form, maps about 20 a side with NaN")
def constructors(rng, k, hint):
    nd = 2 + k % 2
    x, h, fs = forms(rng, nd)
    for nm, f, sep, hashdr in _stats()[nd]:
        ref = None
        items = list(fs.items()) + ([("array", x)] if sep else [])
        for form, d in items:
            fr = Frozen(x=x)
            o = f(d, header=h) if form == "array" else f(d)
            v = vals(o.data)
            fr.check("%s(%s)" % (nm, form))
            ok = close(v, x.squeeze(), 0) or close(v, np.where(np.isnan(x), 0., x), 0)
            need(ok, "%s given a %s holds other data", nm, form)
            if ref is None:
                ref = v
            need(close(v, ref, 0), "%s: %s and %s give different data", nm, form, items[0][0])
            if hashdr:
                need(o.header is not None, "%s given a %s has no header", nm, form)
                need(same_header(o.header, h), "%s given a %s has another header", nm, form)


@check("turbustat/statistics: results of a run", quick=3, bound="power spectrum, delta-variance, PDF, SCF of the same map in each form", thorough=12)
def results(rng, k, hint):
    from turbustat import statistics as s
    from turbustat.statistics import PDF
    x, h, fs = forms(rng, 2)
    x3, h3, fs3 = forms(rng, 3)
    ref = {}

    def put(nm, form, v):
        v = vals(v)
        if nm in ref:
            need(close(v, ref[nm][1], 1e-4), "%s: a %s and a %s give different results", nm, form, ref[nm][0])
        else:
            ref[nm] = form, v
    plain = [(q, d) for q, d in fs.items() if q not in ("projection", "slice")]
    for form, d in plain + [("array", x)]:
        kw = {"header": h} if form == "array" else {}
        o = s.PowerSpectrum(d, **kw)
        o.compute_pspec()
        o.compute_radial_pspec()
        put("PowerSpectrum", form, o.ps1D)
        o = s.DeltaVariance(d, lags=np.array([3., 6.]) * u.pix, **kw)
        o.compute_deltavar(show_progress=False)
        put("DeltaVariance", form, o.delta_var)
        o = PDF(d)
        o.make_pdf()
        put("PDF", form, o.pdf)
        b = s.Bispectrum(d)
        b.compute_bispectrum(seed=3, nsamples=10, show_progress=False)
        put("Bispectrum", form, b.bicoherence)
    # data with a unit: the routines that work with units in this environment
    for form, d in list(fs.items()) + [("array", x)]:
        kw = {"header": h} if form == "array" else {}
        o = PDF(d)
        o.make_pdf()
        put("PDF", form, o.pdf)
        o = s.Tsallis(d, lags=[1, 3] * u.pix, **kw)
        o.make_tsallis(periodic=True)
        put("Tsallis", form, o.lag_arrays)
        o = s.Genus(d, numpts=10)
        o.make_genus_curve(min_size=2)
        put("Genus", form, np.asarray(o.genus_stats))
    for form, d in list(fs3.items()) + [("array", x3)]:
        kw = {"header": h3} if form == "array" else {}
        o = s.SCF(d, size=3, **kw)
        o.compute_surface(show_progress=False)
        put("SCF", form, o.scf_surface)
        o = s.VCA(d, **kw)
        o.compute_pspec()
        put("VCA", form, o.ps2D)
        o = s.VCS(d, **kw)
        o.compute_pspec()
        put("VCS", form, o.ps1D)
