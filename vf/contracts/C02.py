"""Accepted input forms."""
from ..harness import *
from .. import nps, stubs
from ..values import SQuantity, SArr
import astropy.units as u
import numpy as np

S = Suite("C02")
I = "turbustat/io/input_base.py: "
B = "turbustat/statistics/base_statistic.py: "
ST = "turbustat/statistics/"


def forms(c, nd, mod):
    """the same symbolic array and header in every accepted form; class identity is
    what the dispatch looks at, so the stand-ins are subclasses of the real classes"""
    dims = [fresh_int("n%d" % i, 2) for i in range(nd)]
    a = fresh_arr("a", dims, nan=True, inf=True)
    h = stubs.header(spec=nd == 3)

    class HDU(mod._ImageBaseHDU):
        def __init__(self):
            pass
        data = property(lambda self: a)
        header = property(lambda self: h)

    out = {"hdu": HDU(), "tuple": (a, h), "list": [a, h]}
    if mod.HAS_SC:
        class Filled:
            def __getitem__(self, k):
                return a[k]

        class Cube(mod.SpectralCube):
            def __new__(cls):
                return object.__new__(cls)

            def __init__(self):
                pass
            filled_data = property(lambda self: Filled())
            header = property(lambda self: h)
        if nd == 3:
            out["cube"] = Cube()
    return dims, a, h, out


def eq(c, x, a, dims):
    x = arr(x)
    r = skolem(c, dims)
    return And_(same_shape(x, dims), same(x.get(r), a.get(r)))


def owned(x, a):
    """x shares no storage with a: writing to it cannot reach a"""
    return x.buf is not a.buf if hasattr(x, "buf") else x is not a


for _nd in (1, 2, 3, 4):
    def _mk(nd):
        @S.contract(I + "input_data", name="forms_%dd" % nd)
        def f(c):
            from turbustat.io import input_base as mod
            dims, a, h, fs = forms(c, nd, mod)
            for nm, x in fs.items():
                for cp in (False, True):
                    d, hh = mod.input_data(x, need_copy=cp)
                    c.prove("%s (copy %s): same values" % (nm, cp), eq(c, d, a, dims))
                    c.prove("%s (copy %s): same header" % (nm, cp), hh is h)
                    d = mod.input_data(x, no_header=True, need_copy=cp)
                    c.prove("%s without header (copy %s): same values" % (nm, cp), eq(c, d, a, dims))
            d = mod.input_data(a, no_header=True)
            c.prove("array: same values", eq(c, d, a, dims))
            req_unchanged(c, "input_data", a)
            # a copy asked for from an HDU or an array is independent
            for nm, x in (("hdu", fs["hdu"]), ("array", a)):
                d = arr(mod.input_data(x, no_header=True, need_copy=True))
                d[...] = 7.
                r = skolem(c, dims)
                req_unchanged(c, "writing to the copy of the " + nm, a)
                c.prove("%s: the copy takes the new value" % nm, same(d.get(r), lift(7.)))
    _mk(_nd)


@S.contract(I + "input_data (units)")
def units(c):
    from turbustat.io import input_base as mod
    for nd in (2, 3):
        dims = [fresh_int("n%d" % i, 2) for i in range(nd)]
        a, h = fresh_arr("a", dims, nan=True, inf=True), stubs.header(spec=nd == 3)
        for un in (u.K, u.Jy / u.beam):
            q = SQuantity(a, un)
            for nm, x in (("array", q), ("tuple", (q, h)), ("list", [q, h])):
                for cp in (False, True):
                    d = mod.input_data(x, no_header=True, need_copy=cp)
                    c.prove("%s (copy %s) keeps its unit" % (nm, cp), isinstance(d, SQuantity) and d.unit == un)
                    if isinstance(d, SQuantity):
                        c.prove("%s (copy %s) keeps its values" % (nm, cp), eq(c, d.value, a, dims))
            o = _plain()
            o.input_data_header(q, h)
            c.prove("the statistic holds the unit", isinstance(o.data, SQuantity) and o.data.unit == un)
            if isinstance(o.data, SQuantity):
                c.prove("the statistic holds the values", eq(c, o.data.value, a, dims))
        req_unchanged(c, "input_data", a)


@S.contract(I + "input_data (refusals)")
def refused(c):
    from turbustat.io.input_base import input_data
    a = fresh_arr("a", [fresh_int("n", 1), fresh_int("m", 1)], nan=True)
    h = stubs.header()
    for nm, x in (("a bare array", a), ("one item", (a,)), ("three items", (a, h, h)), ("an empty list", []),
                  ("a four item list", [a, h, a, h]), ("a string", "map.fits"), ("None", None), ("a dictionary", {"data": a}),
                  ("a number", 3.), ("a header", h)):
        k, e = outcome(input_data, x)
        c.prove(nm + " is refused", k == "exc" and isinstance(e, TypeError))
    for nm, x in (("one item", (a,)), ("three items", [a, h, h]), ("a string", "map.fits"), ("None", None)):
        k, e = outcome(input_data, x, no_header=True)
        c.prove(nm + " is refused without header too", k == "exc" and isinstance(e, TypeError))


def _plain():
    from turbustat.statistics.base_statistic import BaseStatisticMixIn as M

    class P(M):
        pass
    return P()


@S.contract(B + "BaseStatisticMixIn.input_data_header, data, header")
def mixin(c):
    from turbustat.io import input_base as mod
    for nd in (2, 3):
        dims, a, h, fs = forms(c, nd, mod)
        for nm, x in list(fs.items()) + [("array", a)]:
            for sep in ((False, True) if nm != "array" else (True,)):
                o = _plain()
                h2 = stubs.header("other", spec=nd == 3)
                o.input_data_header(x, h2 if sep else None)
                c.prove("%dd %s, header %s: values" % (nd, nm, "given" if sep else "from the data"), eq(c, o.data, a, dims))
                c.prove("%dd %s, header %s: header" % (nd, nm, "given" if sep else "from the data"), o.header is (h2 if sep else h))
        o = _plain()
        k, e = outcome(o.input_data_header, a, None)
        c.prove("%dd array without header is refused" % nd, k == "exc" and isinstance(e, ValueError) and not hasattr(o, "_data"))
        for bad in ("hdr", {"CDELT1": 1}, 3):
            o = _plain()
            k, e = outcome(o.input_data_header, a, bad)
            c.prove("%dd: a header that is not one is refused" % nd, k == "exc" and isinstance(e, TypeError) and not hasattr(o, "_header"))
            k, e = outcome(o.input_data_header, (a, bad), None)
            c.prove("%dd: a tuple with a header that is not one is refused" % nd, k == "exc" and isinstance(e, TypeError) and not hasattr(o, "_header"))
        for bad in ("x", None, 3., (a,)):
            o = _plain()
            k, e = outcome(o.input_data_header, bad, h)
            c.prove("%dd: data that is none is refused" % nd, k == "exc" and isinstance(e, (TypeError, ValueError)) and not hasattr(o, "_data"))
        k, e = outcome(o.input_data_header, ("x", h), None)
        c.prove("%dd: a tuple without an array is refused" % nd, k == "exc" and isinstance(e, TypeError))
        req_unchanged(c, "input_data_header", a)
        o = _plain()
        o.need_header_flag = False
        o.header = h
        c.prove("no header kept where none is needed", o.header is None)
        o = _plain()
        o.no_data_flag = True
        o.data = a
        c.prove("no data kept where none is wanted", o.data is None)


@S.contract(B + "BaseStatisticMixIn.data (axes of length one)", name="degenerate")
def degenerate(c):
    from turbustat.io import input_base as mod
    n, m = fresh_int("n", 2), fresh_int("m", 2)
    for k, dims in enumerate([(1, n, m), (n, 1, m), (n, m, 1), (1, n, 1, m), (1, 1, n, m), (n, 1, 1, m)]):
        a = fresh_arr("a%d" % k, dims, nan=True)
        h = stubs.header()
        for nm, x in (("array", a), ("tuple", (a, h))):
            o = _plain()
            o.input_data_header(x, h)
            i, j = skolem(c, (n, m))
            r, it = [], iter((i, j))
            for d in dims:
                r.append(0 if isinstance(d, int) else next(it))
            d = arr(o.data)
            c.prove("%s, layout %d: the two remaining axes" % (nm, k), And_(same_shape(d, (n, m)), same(d.get((i, j)), a.get(tuple(r)))))
        req_unchanged(c, "layout %d" % k, a)


@S.contract(B + "BaseStatisticMixIn.input_data_header (copies)", name="copies")
def copies(c):
    from turbustat.io import input_base as mod
    for nd in (2, 3):
        dims, a, h, fs = forms(c, nd, mod)
        for nm, x, hh in (("hdu", fs["hdu"], None), ("hdu", fs["hdu"], h), ("array", a, h)):
            o = _plain()
            o.input_data_header(x, hh, need_copy=True)
            d = arr(o.data)
            d[...] = 7.
            req_unchanged(c, "%dd %s, header %s: writing to the copy" % (nd, nm, "given" if hh is not None else "own"), a)


def _statistic(target, nd, make, fill=False, keeps_header=True):
    cls = target.split(": ")[1].split(".")[0]

    @S.contract(ST + target, name="in_" + cls)
    def f(c):
        from turbustat.io import input_base as mod
        dims, a, h, fs = forms(c, nd, mod)
        for d in dims:
            c.assume(d.e >= 32)
        for nm, x in fs.items():
            k, o = outcome(make, x)
            if k == "exc":
                c.prove("%s accepted" % nm, False)
                continue
            d = arr(o.data)
            r = skolem(c, dims)
            v = a.get(r)
            if fill:
                want = Or_(And_(v.nan, same(d.get(r), lift(0.))), And_(Not_(v.nan), same(d.get(r), v)))
            else:
                want = same(d.get(r), v)
            c.prove("%s: the data%s" % (nm, ", missing pixels zero" if fill else ""), And_(same_shape(d, dims), want))
            c.prove("%s: the header" % nm, o.header is h if keeps_header else o.header is None)
        req_unchanged(c, cls, a)


def _imp(path, cls):
    import importlib
    return getattr(importlib.import_module("turbustat.statistics." + path), cls)


def _nobeam(path, cls, *args, **kw):
    def make(x):
        C = _imp(path, cls)
        old = C.load_beam
        C.load_beam = lambda self, beam=None: None      # reads beam cards of the header only
        try:
            return C(x, *args, **kw)
        finally:
            C.load_beam = old
    return make


_statistic("pspec_bispec/pspec.py: PowerSpectrum.__init__", 2, _nobeam("pspec_bispec.pspec", "PowerSpectrum"), fill=True)
_statistic("vca_vcs/vca.py: VCA.__init__", 3, _nobeam("vca_vcs.vca", "VCA"), fill=True)
_statistic("vca_vcs/vcs.py: VCS.__init__", 3, lambda x: _imp("vca_vcs.vcs", "VCS")(x), fill=True)
_statistic("wavelets/wavelet_transform.py: Wavelet.__init__", 2, lambda x: _imp("wavelets.wavelet_transform", "Wavelet")(x, scales=[2., 4.] * u.pix), fill=True)
_statistic("pspec_bispec/bispec.py: Bispectrum.__init__", 2, lambda x: _imp("pspec_bispec.bispec", "Bispectrum")(x), fill=True, keeps_header=False)
_statistic("tsallis/tsallis.py: Tsallis.__init__", 2, lambda x: _imp("tsallis.tsallis", "Tsallis")(x, lags=[1, 2] * u.pix))
_statistic("stat_moments/highstatmoments.py: StatMoments.__init__", 2, lambda x: _imp("stat_moments.highstatmoments", "StatMoments")(x, nbins=10))
_statistic("delta_variance/delta_variance.py: DeltaVariance.__init__", 2, lambda x: _imp("delta_variance.delta_variance", "DeltaVariance")(x, lags=[3., 4.] * u.pix))
_statistic("scf/scf.py: SCF.__init__", 3, lambda x: _imp("scf.scf", "SCF")(x, size=5))
_statistic("genus/genus.py: Genus.__init__", 2, lambda x: _imp("genus.genus", "Genus")(x, thresholds=np.array([0., 1.])))
_statistic("dendrograms/dendro_stats.py: Dendrogram_Stats.__init__", 2, lambda x: _imp("dendrograms.dendro_stats", "Dendrogram_Stats")(x, min_deltas=np.array([.1, .2])))
_statistic("pca/pca.py: PCA.__init__", 3, lambda x: _imp("pca.pca", "PCA")(x))
