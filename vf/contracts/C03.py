"""Caller's inputs untouched, results repeatable."""
from ..harness import *
from .. import nps, stubs, core
from ..values import SQuantity, SArr, SReal, SSel, arrid, zi_
from .C02 import _imp
from .C07 import patched
import astropy.units as u
import numpy as np

S = Suite("C03")
ST = "turbustat/statistics/"
np_ = nps.np_shim


def snap(x):
    """contents of a result, independent of later writes"""
    if isinstance(x, SQuantity):
        x = x.value
    if isinstance(x, SArr):
        f, d = x.snap(), list(x._shape)
        return SArr.new(d, f, x.kind)
    return x


def equal(c, name, a, b):
    if isinstance(a, SArr) and isinstance(b, SArr):
        r = skolem(c, a)
        c.prove(name, And_(same_shape(b, a._shape), same(a.get(r), b.get(r))))
    elif isinstance(a, SArr) or isinstance(b, SArr):
        c.prove(name, False)
    elif isinstance(a, np.ndarray):
        c.prove(name, bool(isinstance(b, np.ndarray) and np.array_equal(a, b, equal_nan=True)))
    else:
        c.prove(name, same(lift(a), lift(b)))


def twice(c, what, o, run, names, *owned):
    """the computation on the same object, twice"""
    def go():
        k, e = outcome(run, o)
        if k == "exc":
            raise Unsupported("%s raised %s: %s" % (what, type(e).__name__, e))
        return [snap(getattr(o, n)) for n in names]
    r1 = go()
    req_unchanged(c, what, *owned)
    r2 = go()
    req_unchanged(c, what + " again", *owned)
    for n, a, b in zip(names, r1, r2):
        equal(c, "%s: %s is the same the second time" % (what, n), a, b)


def nobeam(C, *a, **k):
    old = C.load_beam
    C.load_beam = lambda self, beam=None: None      # reads beam cards of the header only
    try:
        return C(*a, **k)
    finally:
        C.load_beam = old


def im(c, nd=2, lo=4, nan=True):
    dims = [fresh_int("n%d" % i, lo) for i in range(nd)]
    return fresh_arr("a", dims, nan=nan), dims, stubs.header(spec=nd == 3)


for _w in (False, True):
    for _ap in (None, "tukey"):
        def _mk(w, ap):
            @S.contract(ST + "pspec_bispec/pspec.py: PowerSpectrum.__init__, compute_pspec",
                        name="pspec%s%s" % ("_weighted" if w else "", "_apodized" if ap else ""))
            def f(c):
                C = _imp("pspec_bispec.pspec", "PowerSpectrum")
                a, dims, h = im(c)
                ws = [fresh_arr("w", dims, nan=True)] if w else []
                o = nobeam(C, a, h, **({"weights": ws[0]} if w else {}))
                req_unchanged(c, "constructor", a, *ws)
                twice(c, "compute_pspec", o, lambda o: o.compute_pspec(apodize_kernel=ap), ["ps2D"], a, *ws)
        _mk(_w, _ap)


@S.contract(ST + "mvc/mvc.py: MVC.__init__, compute_pspec")
def mvc(c):
    C = _imp("mvc.mvc", "MVC")
    a, dims, h = im(c)
    b, d = fresh_arr("b", dims, nan=True), fresh_arr("d", dims, nan=True)
    o = nobeam(C, a, b, d, h)
    req_unchanged(c, "constructor", a, b, d)
    twice(c, "compute_pspec", o, lambda o: o.compute_pspec(), ["ps2D"], a, b, d)
    twice(c, "compute_pspec (apodized)", o, lambda o: o.compute_pspec(apodize_kernel="tukey"), ["ps2D"], a, b, d)


@S.contract(ST + "vca_vcs/vca.py: VCA.__init__, compute_pspec")
def vca(c):
    C = _imp("vca_vcs.vca", "VCA")
    a, dims, h = im(c, 3)
    o = nobeam(C, a, h)
    req_unchanged(c, "constructor", a)
    twice(c, "compute_pspec", o, lambda o: o.compute_pspec(), ["ps2D"], a)
    twice(c, "compute_pspec (apodized)", o, lambda o: o.compute_pspec(apodize_kernel="tukey"), ["ps2D"], a)


@S.contract(ST + "vca_vcs/vcs.py: VCS.__init__, compute_pspec")
def vcs(c):
    C = _imp("vca_vcs.vcs", "VCS")
    a, dims, h = im(c, 3)
    o = C(a, h)
    req_unchanged(c, "constructor", a)
    twice(c, "compute_pspec", o, lambda o: o.compute_pspec(), ["ps1D"], a)


class Ricker:
    def __init__(self, width, **k):
        if k:
            raise Unsupported("kernel built in another way")
        self.width = width


def conv(img, kernel, **kw):
    """convolve_fft by its contract: a new array fixed by image, kernel and settings"""
    img = arr(img)
    if not isinstance(kernel, Ricker):
        raise Unsupported("another kernel")
    tag = "CONV_" + "_".join("%s-%s" % (k, getattr(kw[k], "__name__", kw[k])) for k in sorted(kw) if not k.endswith("fftn"))
    keys = [arrid(img), to_real(lift(kernel.width)).v]
    srt = [k.sort() for k in keys] + [z3.IntSort()] * img.ndim
    f, g = z3.Function(tag, *(srt + [z3.RealSort()])), z3.Function(tag + "n", *(srt + [z3.BoolSort()]))
    return SArr.new(list(img._shape), lambda idx: SReal(f(*(keys + [zi_(i) for i in idx])), g(*(keys + [zi_(i) for i in idx]))), "f")


@S.contract(ST + "wavelets/wavelet_transform.py: Wavelet.__init__, compute_transform")
def wavelet(c):
    mod = __import__("turbustat.statistics.wavelets.wavelet_transform", fromlist=["x"])
    a, dims, h = im(c, lo=32)
    s = np.array([2., 3.5]) * u.pix
    s0 = s.copy()
    o = mod.Wavelet(a, h, scales=s)
    req_unchanged(c, "constructor", a)
    with patched(mod, RickerWavelet2DKernel=Ricker, convolve_fft=conv):
        twice(c, "compute_transform", o, lambda o: o.compute_transform(show_progress=False), ["values", "stddev"], a)
        twice(c, "compute_transform (kept arrays)", o, lambda o: o.compute_transform(show_progress=False, keep_convolved_arrays=True), ["values", "Wf"], a)
    c.prove("given scales unchanged", bool((s == s0).all()))


@S.contract(ST + "delta_variance/delta_variance.py: DeltaVariance.__init__, compute_deltavar", budget_s=150)
def delvar(c):
    from .C10 import Patch
    mod = __import__("turbustat.statistics.delta_variance.delta_variance", fromlist=["x"])
    a, dims, h = im(c, lo=16)
    w = fresh_arr("w", dims, nan=True, ge=0)
    nl = fresh_int("nl", 1)
    L = fresh_arr("L", [nl], gt=0)
    r = c.index("l", 0, nl.e)
    o = mod.DeltaVariance(a, h, weights=w, lags=[3., 4.] * u.pix)
    o._lags = SQuantity(L, u.pix)
    req_unchanged(c, "constructor", a, w)
    for b in ("wrap", "fill"):
        with Patch(mod) as p:
            twice(c, "compute_deltavar " + b, o, lambda o: o.compute_deltavar(boundary=b, show_progress=False),
                  ["delta_var", "delta_var_error"], a, w, L)


@S.contract(ST + "stat_moments/highstatmoments.py: StatMoments.compute_spatial_distrib", budget_s=200)
def moments(c):
    from .C12 import stat, Callee
    mod = __import__("turbustat.statistics.stat_moments.highstatmoments", fromlist=["x"])
    for periodic in (True, False):
        o, n, m, r, x, w = stat(c)
        cal = Callee()
        with patched(mod, compute_moments=cal):
            twice(c, "compute_spatial_distrib periodic=%s" % periodic, o,
                  lambda o: o.compute_spatial_distrib(periodic=periodic, show_progress=False),
                  ["mean_array", "variance_array", "skewness_array", "kurtosis_array"], x, w)


@S.contract(ST + "stat_moments/highstatmoments.py: StatMoments.__init__, array_moments, compute_moments")
def moments_whole(c):
    mod = __import__("turbustat.statistics.stat_moments.highstatmoments", fromlist=["x"])
    a, dims, h = im(c, lo=32)
    w = fresh_arr("w", dims, nan=True, ge=0)
    o = mod.StatMoments(a, h, weights=w, nbins=10)
    req_unchanged(c, "constructor", a, w)
    twice(c, "array_moments", o, lambda o: o.array_moments(), ["mean", "variance", "skewness", "kurtosis"], a, w)


@S.contract(ST + "scf/scf.py: SCF.__init__")
def scf_init(c):
    mod = __import__("turbustat.statistics.scf.scf", fromlist=["x"])
    a, dims, h = im(c, 3)
    mod.SCF(a, h, size=3)
    req_unchanged(c, "constructor", a)


for _k in ("i", "f"):
    def _mks(k):
        @S.contract(ST + "scf/scf.py: SCF.compute_surface", name="scf_" + k, budget_s=150)
        def f(c):
            from .C09 import fshift, scf
            mod, o, a, L, nz, n, m, nl = scf(c, k)
            with patched(mod, fourier_shift=fshift):
                twice(c, "compute_surface", o, lambda o: o.compute_surface(show_progress=False), ["scf_surface"], a, L)
    _mks(_k)


@S.contract(ST + "pdf/compare_pdf.py: PDF.__init__, make_pdf, make_ecdf", budget_s=150)
def pdf(c):
    C = _imp("pdf.compare_pdf", "PDF")
    a, dims, h = im(c)
    o = C(a)
    req_unchanged(c, "constructor", a)
    w = fresh_arr("w", dims, nan=True)
    C(a, weights=w, min_val=fresh_real("mv"))
    req_unchanged(c, "constructor with weights and threshold", a, w)


for _nm in ("given", "number", "default"):
    def _mkp(nm):
        @S.contract(ST + "pdf/compare_pdf.py: PDF.make_pdf, make_ecdf", name="pdf_again_" + nm, budget_s=100)
        def f(c):
            from .C11 import mk_pdf
            p, n = mk_pdf(c)
            x = p.data
            own = [x]
            if nm == "given":
                e = fresh_arr("e", [fresh_int("k", 2)])
                own.append(e)
                kw = dict(bins=e)
            else:
                kw = dict(bins=fresh_int("nb", 1)) if nm == "number" else {}

            def run(o):
                o.make_pdf(**kw)
                o.make_ecdf()
            twice(c, "make_pdf", p, run, ["pdf", "bins", "ecdf"], *own)
    _mkp(_nm)


@S.contract(ST + "stats_utils.py: standardize, normalize, normalize_by_mean, center, hellinger, common_histogram_bins, pixel_shift, fourier_shift")
def helpers(c):
    from turbustat.statistics import stats_utils as su
    n, m = fresh_int("n", 2), fresh_int("m", 2)
    a = fresh_arr("a", [n, m], nan=True)
    v, w = fresh_arr("v", [n], nan=True), fresh_arr("w", [m], nan=True)
    p, q = fresh_arr("p", [n], ge=0), fresh_arr("q", [n], ge=0)

    def call(nm, f, *args, **kw):
        k, e = outcome(f, *args, **kw)
        if k == "exc" and not isinstance(e, ValueError):
            raise Unsupported("%s: %s" % (nm, e))
        req_unchanged(c, nm, a, v, w, p, q)
    for nm in ("standardize", "center", "normalize", "normalize_by_mean"):
        call(nm, su.data_normalization, a, norm_type=nm)
    call("hellinger", su.hellinger, p, q, bin_width=fresh_real("bw"))
    call("common_histogram_bins", su.common_histogram_bins, v, w, nbins=fresh_int("nb", 2))
    call("pixel_shift", su.pixel_shift, a, fresh_int("s"), axis=1)
    call("fourier_shift", su.fourier_shift, a, fresh_real("s"), axis=0)


@S.contract(ST + "fitting_utils.py: clip_func, check_fit_limits")
def fit_helpers(c):
    from turbustat.statistics import fitting_utils as fu
    n = fresh_int("n", 2)
    x = fresh_arr("x", [n])
    fu.clip_func(x, fresh_real("lo"), fresh_real("hi"))
    req_unchanged(c, "clip_func", x)


@S.contract(ST + "rfft_to_fft.py: rfft_to_fft")
def rfft(c):
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    for nd in (2, 3):
        a, dims, h = im(c, nd)
        b1 = snap(rfft_to_fft(a))
        b2 = snap(rfft_to_fft(a))
        req_unchanged(c, "rfft_to_fft %dd" % nd, a)
        equal(c, "rfft_to_fft %dd repeats" % nd, b1, b2)


class Opts(dict):
    """the caller's option dictionary: every key may be there or not, and what is done to it is recorded"""
    def __init__(self, c):
        dict.__init__(self)
        self.c, self.known, self.written = c, set(), []

    def _see(self, k):
        if k not in self.known:
            self.known.add(k)
            if self.c.choose():
                dict.__setitem__(self, k, True)

    def get(self, k, d=None):
        self._see(k)
        return dict.get(self, k, d)

    def __contains__(self, k):
        self._see(k)
        return dict.__contains__(self, k)

    def __getitem__(self, k):
        self._see(k)
        return dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        self.written.append(k)
        self.known.add(k)
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._see(k)
        dict.__delitem__(self, k)
        self.written.append(k)

    def pop(self, k, *d):
        self._see(k)
        if dict.__contains__(self, k):
            self.written.append(k)
        return dict.pop(self, k, *d)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def __ior__(self, o):
        self.update(o)
        return self

    def clear(self):
        self.written.append("*")
        dict.clear(self)

    def popitem(self):
        self.written.append("*")
        return dict.popitem(self)

    def copy(self):
        return dict(self)


class Given:
    """attribute of an object whose computations are stand-ins"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Given()

    def __call__(self, *a, **k):
        return Given()


def options(mod, cls, *params, **fixed):
    @S.contract(ST + mod.replace(".", "/") + ".py: %s.run" % cls, name="options_" + cls)
    def f(c):
        C = _imp(mod, cls)
        calls = []

        def stand(self, *a, **k):
            calls.append(1)
            return None
        names = [n for n in dir(C) if not n.startswith("__") and n != "run" and
                 (callable(getattr(C, n)) or isinstance(getattr(C, n), property))]
        body = {n: (property(lambda self: Given()) if isinstance(getattr(C, n), property) else stand) for n in names}
        T = type(cls, (C,), body)
        o = T.__new__(T)
        for a in ("_bootstrap_flag", "_fit2D_flag"):
            object.__setattr__(o, a, False)
        opts = {p: Opts(c) for p in params}
        k, e = outcome(T.run, o, **fixed, **opts)
        if k == "exc" and not isinstance(e, (TypeError, ValueError)):
            raise Unsupported("%s.run raised %s: %s" % (cls, type(e).__name__, e))
        if not calls:
            raise Unsupported("no computation was called")
        for p in params:
            c.prove("%s is left as given" % p, not opts[p].written)


_PS = ("pyfftw_kwargs", "radial_pspec_kwargs", "fit_kwargs", "fit_2D_kwargs")
options("pspec_bispec.pspec", "PowerSpectrum", *_PS)
options("mvc.mvc", "MVC", *_PS)
options("vca_vcs.vca", "VCA", *_PS)
options("vca_vcs.vcs", "VCS", "pyfftw_kwargs", "fit_kwargs")
options("scf.scf", "SCF", "fit_kwargs", "fit_2D_kwargs", "radialavg_kwargs")
options("wavelets.wavelet_transform", "Wavelet", "convolve_kwargs", "pyfftw_kwargs", "fit_kwargs")
options("delta_variance.delta_variance", "DeltaVariance", "pyfftw_kwargs", "fit_kwargs")
options("dendrograms.dendro_stats", "Dendrogram_Stats", "fit_kwargs", "hist_kwargs")
