"""Delta-variance."""
from types import SimpleNamespace as NS
from ..harness import *
from .. import nps, stubs
from ..values import SQuantity, SArr, SReal, arrid, ArrSort
import astropy.units as u

S = Suite("C10")
M = "turbustat/statistics/delta_variance/delta_variance.py: "
K = "turbustat/statistics/delta_variance/kernels.py: "
np_ = nps.np_shim


def fin(v):
    return And_(Not_(v.nan), Not_(v.inf))


def field(c):
    """filtered map and weights: some pixel has a value and a positive weight"""
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    a = fresh_arr("a", [n, m], nan=True)
    w = fresh_arr("w", [n, m], nan=True, ge=0)
    i, j = c.index("wi", 0, n.e), c.index("wj", 0, m.e)
    c.assume(And_(fin(a.get((i, j))), fin(w.get((i, j))), w.get((i, j)).v > 0))
    c.lemma("there are valid pixels", np_.sum(np_.isfinite(a)).e > 0)
    c.lemma("the total weight is positive", np_.nansum(np_.where(np_.isnan(a), np_.nan, w)).v > 0)
    return n, m, a, w


@S.contract(M + "_delvar")
def value(c):
    from turbustat.statistics.delta_variance.delta_variance import _delvar
    n, m, a, w = field(c)
    lag = fresh_real("lag", gt=0)
    v, e = map(lift, _delvar(a, w, lag))
    wm = np_.where(np_.isnan(a), np_.nan, w)
    d = a - np_.nanmean(a)
    W = np_.nansum(wm)
    ref = lift(np_.nansum(wm * d ** 2.) / W)
    c.prove("weighted mean square deviation from the mean of the filtered map", same(v, ref))
    c.prove("the value is not negative", And_(fin(v), v.v >= 0))
    c.prove("the error is not negative", Or_(e.nan, e.inf, e.v >= 0))
    req_unchanged(c, "_delvar", a, w)


@S.contract(M + "_delvar")
def error(c):
    from turbustat.statistics.delta_variance.delta_variance import _delvar
    n, m, a, w = field(c)
    lag = fresh_real("lag", gt=0)
    v, e = map(lift, _delvar(a, w, lag))
    wm = np_.where(np_.isnan(a), np_.nan, w)
    d = a - np_.nanmean(a)
    W = np_.nansum(wm)
    q = np_.nansum(wm * d ** 4.) / W - (np_.nansum(wm * d ** 2.) / W) ** 2
    area = np_.ceil(0.5 * np_.pi * np_.log(2) * lag ** 2).astype(int)
    ref = np_.sqrt(q) / np_.sqrt(np_.isfinite(d).sum() // area)
    c.prove("root of the weighted spread of the squares over the independent pixels", same(e, lift(ref)))


@S.contract(M + "_delvar")
def shift(c):
    from turbustat.statistics.delta_variance.delta_variance import _delvar
    n, m, a, w = field(c)
    lag, k = fresh_real("lag", gt=0), fresh_real("k")
    v = lift(_delvar(a, w, lag)[0])
    m1, m2 = lift(np_.nanmean(a)), lift(np_.nanmean(a + k))
    c.lemma("mean of the shifted map", And_(fin(m2), m2.v == m1.v + k.v))
    v2 = lift(_delvar(a + k, w, lag)[0])
    c.prove("adding a constant changes nothing", same(v2, v))


@S.contract(M + "_delvar")
def scale(c):
    from turbustat.statistics.delta_variance.delta_variance import _delvar
    n, m, a, w = field(c)
    lag, k = fresh_real("lag", gt=0), fresh_real("k")
    v = lift(_delvar(a, w, lag)[0])
    m1, m2 = lift(np_.nanmean(a)), lift(np_.nanmean(a * k))
    c.lemma("mean of the scaled map", And_(fin(m2), m2.v == m1.v * k.v))
    v2 = lift(_delvar(a * k, w, lag)[0])
    c.prove("a factor enters squared", same(v2, v * k * k))


class Kern:
    def __init__(self, kind, lag, ratio=None):
        self.kind, self.lag, self.ratio = kind, lag, ratio


class Patch:
    """callees of compute_deltavar by their contracts: the kernels are named by
    lag and ratio, the convolution is some map of image, kernel and settings,
    _delvar some pair of numbers of map, weights and lag"""

    def __init__(self, mod):
        self.mod, self.old, self.seen = mod, {}, set()

    def conv(self, img, kernel, boundary=None, fill_value=None, allow_huge=None, nan_treatment=None,
             use_pyfftw=False, threads=1, pyfftw_kwargs=None, **kw):
        self.seen.add("conv")
        if kw or not isinstance(kernel, Kern):
            raise Unsupported("convolution called in another way")
        fv = "nan" if isinstance(fill_value, float) and fill_value != fill_value else fill_value
        if isinstance(fv, V.Sym):
            raise Unsupported("symbolic fill value")
        tag = "CONV_%s_%s_%s_%s_%s" % (kernel.kind, boundary, fv, nan_treatment, allow_huge)
        img = arr(img)
        keys = [arrid(img), to_real(lift(kernel.lag)).v] + ([to_real(lift(kernel.ratio)).v] if kernel.ratio is not None else [])
        srt = [k.sort() for k in keys] + [z3.IntSort()] * 2
        f = z3.Function(tag, *(srt + [z3.RealSort()]))
        g = z3.Function(tag + "_nan", *(srt + [z3.BoolSort()]))
        return SArr.new(list(img._shape), lambda idx: SReal(f(*(keys + [zi_(i) for i in idx])), g(*(keys + [zi_(i) for i in idx]))), "f")

    def delvar(self, a, w, lag):
        self.seen.add("delvar")
        a, w = arr(a), arr(w)
        w = np_.where(np_.isnan(a), np_.nan, w)         # its contract: no weight where the map is missing
        keys = [arrid(a), arrid(arr(w)), to_real(lift(lag)).v]
        srt = [k.sort() for k in keys]
        out = []
        for nm in ("VAL", "ERR"):
            out.append(SReal(z3.Function(nm, *(srt + [z3.RealSort()]))(*keys), z3.Function(nm + "n", *(srt + [z3.BoolSort()]))(*keys),
                             z3.Function(nm + "i", *(srt + [z3.BoolSort()]))(*keys)))
        return tuple(out)

    def __enter__(self):
        new = dict(core_kernel=lambda lag, x, y: Kern("core", lag),
                   annulus_kernel=lambda lag, ratio, x, y: Kern("annulus", lag, ratio),
                   convolution_wrapper=self.conv, _delvar=self.delvar)
        for k, f in new.items():
            if not hasattr(self.mod, k):
                raise Unsupported("%s is not there" % k)
            self.old[k] = getattr(self.mod, k)
            setattr(self.mod, k, f)
        return self

    def __exit__(self, *a):
        for k, f in self.old.items():
            setattr(self.mod, k, f)
        return False


def curve(name, boundary, preserve, treat):
    @S.contract(M + "DeltaVariance.compute_deltavar", name=name, budget_s=150)
    def f(c):
        from turbustat.statistics.delta_variance import delta_variance as mod
        n, m, nl = fresh_int("n", 2), fresh_int("m", 2), fresh_int("nlags", 1)
        x, w = fresh_arr("x", [n, m], nan=True), fresh_arr("w", [n, m], ge=0)
        L = fresh_arr("lag", [nl], ge=1)
        o = mod.DeltaVariance.__new__(mod.DeltaVariance)
        o._data, o._weights, o.diam_ratio = x, w, fresh_real("ratio", gt=1)
        o._lags = SQuantity(L, u.pix)
        frac = fresh_real("min_weight_frac", lo=0)
        with Patch(mod) as p:
            o.compute_deltavar(boundary=boundary, min_weight_frac=frac, preserve_nan=preserve, nan_treatment=treat,
                               show_progress=False)
            if p.seen != {"conv", "delvar"}:
                raise Unsupported("other callees")
            c.prove("one value per lag", And_(same_shape(o.delta_var, [nl]), same_shape(o.delta_var_error, [nl])))
            q = c.index("q", 0, nl.e)
            lag = L.get((q,))
            # the definition
            if boundary == "wrap":
                pw, pi = w, x * w
            else:
                pl = V.trunc_int(lag)
                pw = np_.pad(w, pl)
                pi = np_.pad(x, pl) * pw
            fv = 0. if treat == "fill" else np_.nan
            kw = dict(boundary=boundary, fill_value=fv, allow_huge=False, nan_treatment=treat)
            kc, ka = Kern("core", lag), Kern("annulus", lag, o.diam_ratio)
            wc, wa = p.conv(pw, kc, **kw), p.conv(pw, ka, **kw)
            cut = frac * np_.max(w)
            wc = np_.where(wc <= cut, np_.nan, wc)
            wa = np_.where(wa <= cut, np_.nan, wa)
            d = p.conv(pi, kc, **kw) / wc - p.conv(pi, ka, **kw) / wa
            if preserve:
                d = np_.where(np_.isnan(pi), np_.nan, d)
            val, err = p.delvar(d, wc * wa, lag)
            bad = Or_(val.nan, err.nan, val.inf, err.inf, val.v <= 0, err.v <= 0)
            gv, ge = o.delta_var.get((q,)), o.delta_var_error.get((q,))
            c.prove("an undetermined lag is missing in value and error", zb(And_(gv.nan, ge.nan)) == zb(bad))
            c.prove("value of the lag", Or_(bad, same(gv, val)))
            c.prove("error of the lag", Or_(bad, same(ge, err)))
            c.prove("value and error are missing together, else positive",
                    And_(zb(gv.nan) == zb(ge.nan), Or_(gv.nan, And_(fin(gv), fin(ge), gv.v > 0, ge.v > 0))))
        req_unchanged(c, name, x, w, L)


curve("curve_wrap", "wrap", False, "fill")
curve("curve_wrap_preserve", "wrap", True, "interpolate")
curve("curve_fill", "fill", False, "fill")


@S.contract(M + "DeltaVariance.compute_deltavar, lags")
def lag_units(c):
    """lags in degrees are used as that many pixels"""
    from turbustat.statistics.delta_variance import delta_variance as mod
    n, m, nl = fresh_int("n", 2), fresh_int("m", 2), fresh_int("nlags", 1)
    x, w = fresh_arr("x", [n, m], nan=True), fresh_arr("w", [n, m], ge=0)
    L = fresh_arr("lag", [nl], gt=0)
    res = []
    h = stubs.header()
    for un in ("deg", "pix"):
        o = mod.DeltaVariance.__new__(mod.DeltaVariance)
        o._data, o._weights, o.diam_ratio = x, w, 1.5
        o._header = h
        o._lags = SQuantity(L, u.deg)
        if un == "pix":
            o._lags = o._to_pixel(o._lags)
            pix = o._lags.value
        with Patch(mod) as p:
            o.compute_deltavar(show_progress=False)
        res.append(o)
    q = c.index("q", 0, nl.e)
    c.prove("same values", And_(same(res[0].delta_var.get((q,)), res[1].delta_var.get((q,))),
                                same(res[0].delta_var_error.get((q,)), res[1].delta_var_error.get((q,)))))


@S.contract(M + "DeltaVariance.compute_deltavar")
def bad_boundary(c):
    from turbustat.statistics.delta_variance import delta_variance as mod
    n, m, nl = fresh_int("n", 2), fresh_int("m", 2), fresh_int("nlags", 1)
    o = mod.DeltaVariance.__new__(mod.DeltaVariance)
    o._data, o._weights, o.diam_ratio = fresh_arr("x", [n, m], nan=True), fresh_arr("w", [n, m], ge=0), 1.5
    o._lags = SQuantity(fresh_arr("lag", [nl], ge=1), u.pix)
    with Patch(mod):
        k, e = outcome(o.compute_deltavar, boundary="reflect", show_progress=False)
    c.prove("an unknown boundary is refused", k == "exc" and isinstance(e, ValueError))


@S.contract(K + "core_kernel, annulus_kernel")
def kernel_sizes(c):
    from turbustat.statistics.delta_variance import kernels as mod
    lag, ratio = fresh_real("lag", gt=0), fresh_real("ratio", gt=1)
    got = {}
    old = mod.Gaussian2DKernel, mod.AnnulusKernel
    mod.Gaussian2DKernel = lambda *a, **k: got.setdefault("core", (a, k))
    mod.AnnulusKernel = lambda *a, **k: got.setdefault("ann", (a, k))
    try:
        mod.core_kernel(lag, 5, 7)
        mod.annulus_kernel(lag, ratio, 5, 7)
    finally:
        mod.Gaussian2DKernel, mod.AnnulusKernel = old
    sd = lag / (2 * np_.sqrt(2))
    (a, k), (b, j) = got.get("core", ((), {})), got.get("ann", ((), {}))
    s1 = a[0] if a else k.get("x_stddev")
    s2 = b[0] if b else j.get("stddev")
    r2 = b[1] if len(b) > 1 else j.get("ratio")
    if s1 is None or s2 is None or r2 is None:
        raise Unsupported("kernels built in another way")
    c.prove("core width", same(lift(s1), lift(sd)))
    c.prove("annulus width", same(lift(s2), lift(sd)))
    c.prove("annulus ratio", same(lift(r2), ratio))


@S.contract(K + "GaussianAnnulus2D.evaluate")
def annulus_profile(c):
    from turbustat.statistics.delta_variance.kernels import GaussianAnnulus2D
    x, y, amp, s, r = fresh_real("x"), fresh_real("y"), fresh_real("amp"), fresh_real("s", gt=0), fresh_real("r", gt=1)
    g = GaussianAnnulus2D.evaluate(x, y, amp, 0., 0., s, r)
    R = x * x + y * y
    ref = amp * (np_.exp(-R / (2 * (r * s) ** 2)) - np_.exp(-R / (2 * s ** 2)))
    c.prove("difference of the two Gaussians", same(lift(g), lift(ref)))
    g2 = GaussianAnnulus2D.evaluate(-x, y, amp, 0., 0., s, r)
    c.prove("symmetric", same(lift(g), lift(g2)))
