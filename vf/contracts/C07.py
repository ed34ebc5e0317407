"""Fit ranges."""
from ..harness import *
from .. import nps, stubs
from ..values import SQuantity, SSel, SArr, zi_, SInt, SBool
import astropy.units as u
import numpy as np

S = Suite("C07")
P = "turbustat/statistics/"
np_ = nps.np_shim


def fin(v):
    return And_(Not_(v.nan), Not_(v.inf))


class patched:
    def __init__(self, mod, **new):
        self.mod, self.new, self.old = mod, new, {}

    def __enter__(self):
        for k, f in self.new.items():
            if not hasattr(self.mod, k):
                raise Unsupported("%s is not there" % k)
            self.old[k] = getattr(self.mod, k)
            setattr(self.mod, k, f)
        return self

    def __exit__(self, *a):
        for k, f in self.old.items():
            setattr(self.mod, k, f)
        return False


class Seg:
    """Lm_Seg by its contract (C20): points and break are recorded; either a
    break is found (five parameters) or not"""
    made = []

    def __init__(self, x, y, brk, weights=None):
        self.x, self.y, self.start, self.weights = x, y, brk, weights
        Seg.made.append(self)

    def fit_model(self, **k):
        self.kw = k
        c = core.ctx()
        n = len(Seg.made)
        found = c.branch(z3.Bool("seg%d_found" % n))
        size = 5 if found else 2
        self.params = fresh_arr("seg%d_params" % n, [size], owner=None)
        self.fit = stubs.FitResult(stubs.Model("seg", self.y, stubs.AddConst(self.x), weights=self.weights))
        self.brk, self.brk_err = fresh_real("seg%d_brk" % n), fresh_real("seg%d_brk_err" % n)
        self.slopes = fresh_arr("seg%d_slopes" % n, [2], owner=None)
        self.slope_errs = fresh_arr("seg%d_slope_errs" % n, [2], owner=None)


from .. import core
from ..core import ctx


def chosen(c, name, sel, dims, inside, value, required=True):
    """sel holds value(r) for exactly the base positions r with inside(r)"""
    if isinstance(sel, SQuantity):
        sel = sel.value
    if isinstance(sel, SArr) and len(sel._shape) == len(dims) and not required:
        pass
    if not isinstance(sel, SSel):
        raise Unsupported("points handed over as %s" % type(sel).__name__)
    if len(sel.bdims) != len(dims):
        raise Unsupported("points chosen from another array")
    c.prove("%s: chosen from the whole curve" % name, And_(*[zb(V._eq(a, V.as_dim(b))) for a, b in zip(sel.bdims, dims)]))
    r = skolem(c, dims, "pt")
    c.prove("%s: exactly the points inside the limits" % name, zb(to_bool(sel.mask(r)).c) == zb(inside(r)))
    c.prove("%s: each with its own value" % name, Or_(Not_(inside(r)), same(sel.fn(r), value(r))))


def model(c, n=1):
    fits = [e[1].model for e in c.log if e[0] == "fit"]
    if len(fits) != n:
        raise Unsupported("%d fits" % len(fits))
    return fits[-1]


def xof(m):
    if not isinstance(m.exog, stubs.AddConst):
        raise Unsupported("design matrix built in another way")
    return m.exog.x


def limit(c, name, un):
    if un is None:
        return None
    return SQuantity(fresh_real(name, gt=0), un)


def obj(c, cls, h, dist=False):
    o = cls.__new__(cls)
    o._header = h
    o._data = None
    if dist:
        o._distance = SQuantity(fresh_real("dist", gt=0), u.pc)
    return o


def factor(h, un, o=None):
    """pixels per unit"""
    if un == u.pix:
        return lift(1.0)
    if un == u.deg:
        return 1.0 / h.pix_scale_x
    if un == u.arcmin:
        return 1.0 / (h.pix_scale_x * 60.)
    return 1.0 / (h.pix_scale_x * (np.pi / 180.) * o._distance.value)


CASES = [("pix", u.pix, u.pix, u.pix), ("deg", u.deg, u.deg, u.pix), ("pc", u.pc, u.deg, u.deg),
         ("low", u.pix, None, u.pix), ("high", None, u.deg, u.pix), ("open", None, None, u.pix)]


def lag_fits(tag, ulo, uhi, ulag):
    def setup(c, cls, spec=False):
        h = stubs.header(spec=spec)
        o = obj(c, cls, h, dist=True)
        n = fresh_int("n", 3)
        L = fresh_arr("lag", [n], gt=0)
        val, err = fresh_arr("val", [n], nan=True, gt=0), fresh_arr("err", [n], nan=True, gt=0)
        lo, hi = limit(c, "xlow", ulo), limit(c, "xhigh", uhi)
        fl = factor(h, ulag, o)
        plag = lambda r: to_real(lift(L.get(r))) * fl
        plo = None if lo is None else lo.value * factor(h, ulo, o)
        phi = None if hi is None else hi.value * factor(h, uhi, o)

        def inside(r):
            p = plag(r).v
            # compared in pixels
            return And_(zi_(r[0]) < zi_(n.e), True if plo is None else p >= plo.v, True if phi is None else p <= phi.v)
        return h, o, n, L, val, err, lo, hi, plag, plo, phi, inside

    def rng(c, got, plag, plo, phi, n):
        """the reported range is the one used, or encloses all points"""
        a, b = (to_real(lift(q.to(u.pix).value)) for q in got)
        r = skolem(c, [n], "all")
        if plo is not None:
            c.prove("reported lower limit", same(a, plo))
        else:
            c.prove("reported lower limit is below every point", a.v <= plag(r).v)
        if phi is not None:
            c.prove("reported upper limit", same(b, phi))
        else:
            c.prove("reported upper limit is above every point", b.v >= plag(r).v)

    @S.contract(P + "delta_variance/delta_variance.py: DeltaVariance.fit_plaw", name="delvar_" + tag)
    def delvar(c):
        from turbustat.statistics.delta_variance import delta_variance as mod
        h, o, n, L, val, err, lo, hi, plag, plo, phi, inside = setup(c, mod.DeltaVariance)
        o._lags, o._delta_var, o._delta_var_error = SQuantity(L, ulag), val, err
        o.fit_plaw(xlow=lo, xhigh=hi)
        m = model(c)
        chosen(c, "lags", xof(m), [n], inside, lambda r: np_.log10(plag(r)))
        chosen(c, "values", m.endog, [n], inside, lambda r: np_.log10(val.get(r)))
        chosen(c, "weights", m.weights, [n], inside, lambda r: 1 / (err.get(r) * err.get(r)))
        c.prove("slope and error of that fit", And_(same(lift(o.slope), o.fit.params.get((1,))), same(lift(o.slope_err), o.fit.bse.get((1,)))))
        rng(c, o.fit_range, plag, plo, phi, n)
        req_unchanged(c, "fit_plaw", L, val, err)

    for weighted in (False, True):
        @S.contract(P + "wavelets/wavelet_transform.py: Wavelet.fit_transform", name="wavelet_%s%s" % (tag, "_weighted" if weighted else ""))
        def wave(c, weighted=weighted):
            from turbustat.statistics.wavelets import wavelet_transform as mod
            h, o, n, L, val, err, lo, hi, plag, plo, phi, inside = setup(c, mod.Wavelet)
            o._scales, o._values, o._stddev = SQuantity(L, ulag), val, err
            o.fit_transform(xlow=lo, xhigh=hi, weighted_fit=weighted)
            m = model(c)
            chosen(c, "scales", xof(m), [n], inside, lambda r: np_.log10(plag(r)))
            chosen(c, "values", m.endog, [n], inside, lambda r: np_.log10(val.get(r)))
            if weighted:
                def w(r):
                    e = 0.434 * err.get(r) / val.get(r)
                    return 1 / (e * e)
                chosen(c, "weights", m.weights, [n], inside, w)
            else:
                c.prove("no weights", m.weights is None)
            c.prove("slope and error of that fit", And_(same(lift(o.slope), o.fit.params.get((1,))), same(lift(o.slope_err), o.fit.bse.get((1,)))))
            rng(c, o.fit_range, plag, plo, phi, n)
            req_unchanged(c, "fit_transform", L, val, err)

    @S.contract(P + "scf/scf.py: SCF.fit_plaw", name="scf_" + tag)
    def scf(c):
        from turbustat.statistics.scf import scf as mod
        h, o, n, L, val, err, lo, hi, plag, plo, phi, inside = setup(c, mod.SCF)
        o._lags = SQuantity(L, ulag)
        o._scf_spectrum, o._scf_spectrum_stddev = val, err
        k, e = outcome(o.fit_plaw, xlow=lo, xhigh=hi)
        if k == "exc":
            r = skolem(c, [n], "none")
            c.prove("refused only when no point is inside", And_(isinstance(e, ValueError), Not_(inside(r))))
            return
        m = model(c)
        chosen(c, "lags", xof(m), [n], inside, lambda r: np_.log10(plag(r)))
        chosen(c, "values", m.endog, [n], inside, lambda r: np_.log10(val.get(r)))
        chosen(c, "weights", m.weights, [n], inside, lambda r: 1 / (err.get(r) * err.get(r)))
        c.prove("slope and error of that fit", And_(same(lift(o.slope), o.fit.params.get((1,))), same(lift(o.slope_err), o.fit.bse.get((1,)))))
        rng(c, (o._to_pixel(o.xlow), o._to_pixel(o.xhigh)), plag, plo, phi, n)
        req_unchanged(c, "fit_plaw", L, val, err)

    if ulag != u.pix:
        return

    @S.contract(P + "pca/pca.py: PCA.fit_plaw", name="pca_" + tag)
    def pca(c):
        from turbustat.statistics.pca import pca as mod
        h, o, n, L, val, err, lo, hi, plag, plo, phi, inside = setup(c, mod.PCA, spec=True)
        xe = fresh_arr("xerr", [n], nan=True, gt=0)
        X = fresh_arr("width", [n], nan=True, gt=0)
        o._spatial_width, o._spectral_width = SQuantity(X, u.pix), SQuantity(val, u.pix)
        o._spatial_width_error, o._spectral_width_error = SQuantity(xe, u.pix), SQuantity(err, u.pix)
        seen = []

        def lin(x, y, x_err, y_err, verbose=False, **k):
            seen.append((x, y, x_err, y_err))
            return np.array([0.5, 0.1]), np.array([0.01, 0.02])
        get = lambda a: (lambda r: to_real(lift(a.get(r))))

        def use(r):
            p = get(X)(r)
            return And_(fin(p), fin(get(val)(r)), fin(get(err)(r)), fin(get(xe)(r)),
                        True if plo is None else p.v >= plo.v, True if phi is None else p.v <= phi.v)
        with patched(mod, leastsq_linear=lin):
            k, e = outcome(o.fit_plaw, xlow=lo, xhigh=hi)
        if k == "exc":
            r = skolem(c, [n], "any")
            q = to_real(lift(X.get(r)))
            if isinstance(e, Warning):
                k = to_int(lift(np_.sum(SArr.new([n], lambda r: SBool(zb(Not_(use(r)))), "b"))))
                c.prove("refused only when fewer than two points are usable", zi_(n.e) - k.e < 2)
            else:
                c.prove("refused only when no point is inside", And_(isinstance(e, ValueError),
                        Not_(And_(Not_(q.nan), True if plo is None else q.v >= plo.v, True if phi is None else q.v <= phi.v, zi_(r[0]) < zi_(n.e)))))
            return
        if len(seen) != 1:
            raise Unsupported("other fitter")
        x, y, dx, dy = seen[0]
        chosen(c, "widths", x, [n], use, lambda r: np_.log10(get(X)(r)))
        chosen(c, "line widths", y, [n], use, lambda r: np_.log10(get(val)(r)))
        chosen(c, "width errors", dx, [n], use, lambda r: 0.434 * get(xe)(r) / get(X)(r))
        chosen(c, "line width errors", dy, [n], use, lambda r: 0.434 * get(err)(r) / get(val)(r))
        if plo is not None:
            c.prove("reported lower limit", same(to_real(lift(o._to_pixel(o._xlow).value)), plo))
        if phi is not None:
            c.prove("reported upper limit", same(to_real(lift(o._to_pixel(o._xhigh).value)), phi))
        req_unchanged(c, "fit_plaw", X, val, xe, err)


for args in CASES:
    lag_fits(*args)


def reported(c, o, s, unit):
    c.prove("a break is reported only when one was found", len(s.params) == 5)
    b = np_.power(10, s.brk)
    c.prove("reported break", And_(same(to_real(lift(o.brk.value)), b), o.brk.unit == unit))
    c.prove("reported slopes", o.slope is s.slopes and o.slope_err is s.slope_errs)
    c.prove("error of the break", And_(same(to_real(lift(o.brk_err.value)), np.log(10) * b * s.brk_err), o.brk_err.unit == unit))


def breaks(which):
    @S.contract(P + ("delta_variance/delta_variance.py: DeltaVariance.fit_plaw" if which == "delvar" else
                     "wavelets/wavelet_transform.py: Wavelet.fit_transform") + ", break", name=which + "_break")
    def f(c):
        if which == "delvar":
            from turbustat.statistics.delta_variance import delta_variance as mod
            cls, call = mod.DeltaVariance, "fit_plaw"
        else:
            from turbustat.statistics.wavelets import wavelet_transform as mod
            cls, call = mod.Wavelet, "fit_transform"
        h = stubs.header()
        o = obj(c, cls, h)
        n = fresh_int("n", 3)
        L = fresh_arr("lag", [n], gt=0)
        val, err = fresh_arr("val", [n], nan=True, gt=0), fresh_arr("err", [n], nan=True, gt=0)
        lo, hi, brk = (SQuantity(fresh_real(k, gt=0), un) for k, un in (("xlow", u.pix), ("xhigh", u.deg), ("brk", u.deg)))
        pl, ph, pb = lo.value, hi.value * factor(h, u.deg), brk.value * factor(h, u.deg)
        if which == "delvar":
            o._lags, o._delta_var, o._delta_var_error = SQuantity(L, u.pix), val, err
            kw = {}
        else:
            o._scales, o._values, o._stddev = SQuantity(L, u.pix), val, err
            kw = dict(weighted_fit=True)
        Seg.made = []
        o._brk_err = "left from an earlier fit"

        def inside(r):
            return And_(L.get(r).v >= pl.v, L.get(r).v <= ph.v)
        with patched(mod, Lm_Seg=Seg):
            k, e = outcome(getattr(o, call), xlow=lo, xhigh=hi, brk=brk, **kw)
        out = Or_(pb.v < pl.v, pb.v > ph.v)
        if k == "exc":
            c.prove("refused exactly when the break lies outside the limits", And_(isinstance(e, ValueError), out))
            return
        c.prove("the break lies inside the limits", Not_(out))
        if len(Seg.made) != 1:
            raise Unsupported("%d segmented fits" % len(Seg.made))
        s = Seg.made[0]
        chosen(c, "lags", s.x, [n], inside, lambda r: np_.log10(L.get(r)))
        chosen(c, "values", s.y, [n], inside, lambda r: np_.log10(val.get(r)))
        c.prove("starting break", same(lift(s.start), np_.log10(pb)))
        if which == "delvar":
            chosen(c, "weights", s.weights, [n], inside, lambda r: 1 / (err.get(r) * err.get(r)))
        else:
            def w(r):
                e = 0.434 * err.get(r) / val.get(r)
                return 1 / (e * e)
            chosen(c, "weights", s.weights, [n], inside, w)
        if o.brk is None:
            m = model(c, 2)
            chosen(c, "fallback lags", xof(m), [n], inside, lambda r: np_.log10(L.get(r)))
            chosen(c, "fallback values", m.endog, [n], inside, lambda r: np_.log10(val.get(r)))
            c.prove("single slope of the fallback", And_(same(lift(o.slope), o.fit.params.get((1,))), same(lift(o.slope_err), o.fit.bse.get((1,)))))
            c.prove("no error of a break without one", o.brk_err is None)
        else:
            reported(c, o, s, u.pix)


breaks("delvar")
breaks("wavelet")


@S.contract(P + "fitting_utils.py: clip_func")
def clip(c):
    from turbustat.statistics.fitting_utils import clip_func
    n = fresh_int("n", 0)
    a = fresh_arr("a", [n], nan=True)
    lo, hi = fresh_real("lo"), fresh_real("hi")
    m = clip_func(a, lo, hi)
    r = skolem(c, [n])
    v = a.get(r)
    c.prove("above the lower and not above the upper limit",
            zb(to_bool(m.get(r)).c) == zb(And_(Not_(v.nan), v.v > lo.v, v.v <= hi.v)))
    req_unchanged(c, "clip_func", a)


@S.contract(P + "fitting_utils.py: check_fit_limits")
def limits(c):
    from turbustat.statistics.fitting_utils import check_fit_limits
    a, b = SQuantity(fresh_real("a"), u.deg), SQuantity(fresh_real("b"), u.pix)
    lo, hi = check_fit_limits(None, None)
    c.prove("no limits for either", all(x is None for x in list(lo) + list(hi)) and len(lo) == len(hi) == 2)
    try:
        lo, hi = check_fit_limits(a, b)
        c.prove("one limit is used for both", And_(*[And_(same(lift(q[i].value), o.value), q[i].unit == o.unit)
                                                     for q, o in ((lo, a), (hi, b)) for i in (0, 1)]))
    except Unsupported:
        raise
    k, e = outcome(check_fit_limits, [a, a, a], None)
    c.prove("three lower limits are refused", k == "exc" and isinstance(e, ValueError))
    k, e = outcome(check_fit_limits, None, [a])
    c.prove("a single upper limit in a list is refused", k == "exc" and isinstance(e, ValueError))
    lo, hi = check_fit_limits([a, b], [b, None])
    c.prove("separate limits keep their places", lo[0] is a and lo[1] is b and hi[0] is b and hi[1] is None)


# power spectra ----------------------------------------------------------------
FCASES = [("pix", u.pix ** -1, u.pix ** -1), ("deg", u.deg ** -1, u.pix ** -1), ("pc", u.pc ** -1, u.deg ** -1),
          ("low", u.pix ** -1, None), ("high", None, u.deg ** -1), ("open", None, None)]


def ffactor(h, un, o):
    """cycles per pixel in one cycle per unit: pixels have this many units"""
    if un == u.pix ** -1:
        return lift(1.0)
    if un == u.deg ** -1:
        return h.pix_scale_x
    return h.pix_scale_x * (np.pi / 180.) * o._distance.value


def pspec_obj(c):
    from turbustat.statistics import base_pspec2 as mod
    from turbustat.statistics.pspec_bispec.pspec import PowerSpectrum
    h = stubs.header()
    o = obj(c, PowerSpectrum, h, dist=True)
    n, a, b = fresh_int("n", 1), fresh_int("ny", 2), fresh_int("nx", 2)
    f = fresh_arr("freq", [n], gt=0)
    p1, e1 = fresh_arr("ps", [n], nan=True, gt=0), fresh_arr("psd", [n], nan=True, ge=0)
    o._freqs, o._ps1D, o._ps1D_stddev = SQuantity(f, u.pix ** -1), p1, e1
    o._ps2D = fresh_arr("ps2", [a, b], gt=0)
    return mod, h, o, n, a, b, f, p1, e1


for _w in (False, True):
    for _log in (False, True):
        @S.contract(P + "base_pspec2.py: StatisticBase_PSpec2D.fit_pspec, break", name="pspec_break%s%s" % ("_weighted" if _w else "", "_log" if _log else ""))
        def pspec_break(c, weighted=_w, logb=_log):
            mod, h, o, n, a, b, f, p1, e1 = pspec_obj(c)
            lo, hi = limit(c, "low_cut", u.pix ** -1), limit(c, "high_cut", u.deg ** -1)
            plo, phi = lo.value, hi.value * ffactor(h, u.deg ** -1, o)
            brk = fresh_real("brk") if logb else limit(c, "brk", u.deg ** -1)
            o._brk_err = "left from an earlier fit"
            Seg.made = []
            with patched(mod, Lm_Seg=Seg):
                o.fit_pspec(low_cut=lo, high_cut=hi, weighted_fit=weighted, brk=brk, log_break=logb)
            if len(Seg.made) != 1:
                raise Unsupported("%d segmented fits" % len(Seg.made))
            s = Seg.made[0]

            def inside(r):
                return And_(f.get(r).v > plo.v, f.get(r).v <= phi.v)
            chosen(c, "frequencies", s.x, [n], inside, lambda r: np_.log10(f.get(r)))
            chosen(c, "powers", s.y, [n], inside, lambda r: np_.log10(p1.get(r)))
            c.prove("starting break", same(to_real(lift(s.start)), brk if logb else np_.log10(brk.value * ffactor(h, u.deg ** -1, o))))
            if weighted:
                if not isinstance(s.weights, SSel):
                    raise Unsupported("weights")
                r = skolem(c, [n], "w")
                got, e = to_real(s.weights.fn(r)), to_real(0.434 * e1.get(r) / p1.get(r))
                c.prove("weights: exactly the points inside the limits", zb(to_bool(s.weights.mask(r)).c) == zb(inside(r)))
                ok = And_(inside(r), Not_(e.nan), e.v > 0)
                c.prove("weights: inverse square of the logarithmic error", Or_(Not_(ok), And_(fin(got), got.v * e.v * e.v == 1)))
            else:
                c.prove("no weights", s.weights is None)
            if o.brk is None:
                m = model(c, 2)
                chosen(c, "fallback frequencies", xof(m), [n], inside, lambda r: np_.log10(f.get(r)))
                chosen(c, "fallback powers", m.endog, [n], inside, lambda r: np_.log10(p1.get(r)))
                c.prove("single slope of the fallback", And_(same(lift(o.slope), o.fit.params.get((1,))), same(lift(o.slope_err), o.fit.bse.get((1,)))))
                c.prove("no error of a break without one", o.brk_err is None)
            else:
                reported(c, o, s, u.pix ** -1)


def surface(c, o, par, std):
    """the reported results are those of the surface fit"""
    p, s = [par.get((i,)) for i in range(4)], [std.get((i,)) for i in range(4)]
    c.prove("slope and error of the surface fit", And_(same(lift(o.slope2D), p[3]), same(lift(o.slope2D_err), s[3])))
    th = lift(o.theta2D)
    turns = z3.ToReal(z3.ToInt(p[2].v / V.rv(np.pi)))
    c.prove("angle of the surface fit in half a turn, and its error",
            And_(th.v == p[2].v - turns * V.rv(np.pi), same(lift(o.theta2D_err), s[2])))
    e = core.R1["EXP"](-p[1].v)
    el, er = lift(o.ellip2D), lift(o.ellip2D_err)
    c.prove("ellipticity of the surface fit", And_(el.v * (1 + e) == 1, Not_(el.nan), Not_(el.inf)))
    c.prove_nra("error of the ellipticity", [e > 0, s[1].v >= 0, el.v * (1 + e) == 1],
                And_(er.v >= 0, er.v * (1 + e) * (1 + e) == e * s[1].v))


def pspec_fits(tag, ulo, uhi):
    for weighted in (False, True):
        @S.contract(P + "base_pspec2.py: StatisticBase_PSpec2D.fit_pspec", name="pspec_%s%s" % (tag, "_weighted" if weighted else ""))
        def f(c, weighted=weighted):
            mod, h, o, n, a, b, f, p1, e1 = pspec_obj(c)
            lo, hi = limit(c, "low_cut", ulo), limit(c, "high_cut", uhi)
            o.fit_pspec(low_cut=lo, high_cut=hi, weighted_fit=weighted)
            m = model(c)
            big = to_real(SInt(z3.If(zi_(a.e) > zi_(b.e), zi_(a.e), zi_(b.e))))
            plo = 2.0 / big if lo is None else lo.value * ffactor(h, ulo, o)
            top = np_.max(f)
            phi = to_real(lift(top)) if hi is None else hi.value * ffactor(h, uhi, o)

            def inside(r):
                return And_(f.get(r).v > plo.v, f.get(r).v <= phi.v)
            chosen(c, "frequencies", xof(m), [n], inside, lambda r: np_.log10(f.get(r)))
            chosen(c, "powers", m.endog, [n], inside, lambda r: np_.log10(p1.get(r)))
            if weighted:
                def w(r):
                    s = np_.where(e1.get(r) == 0, np_.nan, e1.get(r)) if False else e1.get(r)
                    e = 0.434 * s / p1.get(r)
                    return e
                sel = m.weights
                if not isinstance(sel, SSel):
                    raise Unsupported("weights")
                r = skolem(c, [n], "w")
                got, e = to_real(sel.fn(r)), to_real(w(r))
                c.prove("weights: exactly the points inside the limits", zb(to_bool(sel.mask(r)).c) == zb(inside(r)))
                ok = And_(inside(r), Not_(e.nan), e.v > 0)
                c.prove("weights: inverse square of the logarithmic error", Or_(Not_(ok), And_(fin(got), got.v * e.v * e.v == 1)))
                c.prove("weights: missing where there is no error", Or_(Not_(And_(inside(r), Or_(e.nan, e.v == 0))), got.nan))
            else:
                c.prove("no weights", m.weights is None)
            c.prove("reported limits", And_(same(to_real(lift(o.low_cut.value)), plo), same(to_real(lift(o.high_cut.value)), phi)))
            c.prove("slope and error of that fit", And_(same(lift(o.slope), o.fit.params.get((1,))), same(lift(o.slope_err), o.fit.bse.get((1,)))))
            req_unchanged(c, "fit_pspec", f, p1, e1)

    @S.contract(P + "base_pspec2.py: StatisticBase_PSpec2D.fit_2Dpspec, fit_pspec(fit_unbinned)", name="pspec2d_" + tag)
    def g(c):
        mod, h, o, n, a, b, f, p1, e1 = pspec_obj(c)
        lo, hi = limit(c, "low_cut", ulo), limit(c, "high_cut", uhi)
        seen = []

        par, std = fresh_arr("par", [4], owner=None), fresh_arr("std", [4], owner=None, ge=0)

        def ell(values, x, y, p0, **k):
            seen.append((values, x, y, k))
            return par, std, None, None
        o._slope = -2.0
        o.fit = type("F", (), {"params": [1.0]})()
        yy, xx = mod.make_radial_freq_arrays(o._ps2D._shape)
        fr = np_.sqrt(yy ** 2 + xx ** 2)
        with patched(mod, fit_elliptical_powerlaw=ell):
            k, e = outcome(o.fit_2Dpspec, low_cut=lo, high_cut=hi)
        big = to_real(SInt(z3.If(zi_(a.e) > zi_(b.e), zi_(a.e), zi_(b.e))))
        plo = 2.0 / big if lo is None else lo.value * ffactor(h, ulo, o)
        phi = to_real(lift(np_.max(f))) if hi is None else hi.value * ffactor(h, uhi, o)

        def inside(r):
            return And_(fr.get(r).v > plo.v, fr.get(r).v <= phi.v)
        if k == "exc":
            c.prove("refused only when no point is inside",
                    And_(isinstance(e, ValueError), Not_(lift(np_.any(np_.logical_and(fr > plo, fr <= phi))).c)))
            return
        if len(seen) != 1:
            raise Unsupported("other fitter")
        v, x, y, kk = seen[0]
        P2 = o.ps2D
        chosen(c, "powers", v, [a, b], inside, lambda r: np_.log10(P2.get(r)))
        chosen(c, "column frequencies", x, [a, b], inside, lambda r: xx.get(r))
        chosen(c, "row frequencies", y, [a, b], inside, lambda r: yy.get(r))
        c.prove("reported limits", And_(same(to_real(lift(o.low_cut.value)), plo), same(to_real(lift(o.high_cut.value)), phi)))
        surface(c, o, par, std)


for args in FCASES:
    pspec_fits(*args)


def scf_surface(tag, ulo, uhi, ulag):
    @S.contract(P + "scf/scf.py: SCF.fit_2Dplaw", name="scf2d_" + tag)
    def f(c):
        from turbustat.statistics.scf import scf as mod
        h = stubs.header(spec=True)
        o = obj(c, mod.SCF, h, dist=True)
        m, step = fresh_int("half", 1), fresh_real("step", gt=0)
        n = 2 * m + 1
        lag = (np_.arange(n) - m) * step
        o._lags = SQuantity(lag, ulag)
        s = fresh_arr("surface", [n, n], gt=0)
        o._scf_surface = s
        lo, hi = limit(c, "xlow", ulo), limit(c, "xhigh", uhi)
        px = factor(h, ulag, o)
        plo = to_real(lift(np_.min(np_.abs(lag)))) * px if lo is None else lo.value * factor(h, ulo, o)
        phi = to_real(lift(np_.max(np_.abs(lag)))) * px if hi is None else hi.value * factor(h, uhi, o)
        seen = []
        par, std = fresh_arr("par", [4], owner=None), fresh_arr("std", [4], owner=None, ge=0)

        def ell(values, x, y, p0, **k):
            seen.append((values, x, y, k))
            return par, std, None, None
        with patched(mod, fit_elliptical_powerlaw=ell):
            k, e = outcome(o.fit_2Dplaw, xlow=lo, xhigh=hi)

        def off(r):
            return to_real(SInt(zi_(m.e) - r[0])), to_real(SInt(r[1] - zi_(m.e)))

        def dist(r):
            y, x = off(r)
            return np_.sqrt(y * y + x * x) * step * px

        def inside(r):
            d = lift(dist(r))
            return And_(d.v > plo.v, d.v <= phi.v)
        if k == "exc":
            r = skolem(c, [n, n], "none")
            c.prove("refused only when no point is inside", And_(isinstance(e, ValueError), Not_(inside(r))))
            return
        if len(seen) != 1:
            raise Unsupported("other fitter")
        v, x, y, kk = seen[0]
        chosen(c, "correlations", v, [n, n], inside, lambda r: np_.log10(s.get(r)))
        chosen(c, "column offsets", x, [n, n], inside, lambda r: off(r)[1])
        chosen(c, "row offsets", y, [n, n], inside, lambda r: off(r)[0])
        c.prove("reported limits", And_(same(to_real(lift(o._to_pixel(o.xlow).value)), plo), same(to_real(lift(o._to_pixel(o.xhigh).value)), phi)))
        surface(c, o, par, std)
        req_unchanged(c, "fit_2Dplaw", s)


for args in CASES:
    scf_surface(*args)


class Fitter:
    """a least-squares fit by its contract: some model of the same kind, whose
    parameters and covariance belong to that one fit"""
    made = []

    def __init__(self):
        self.fit_info = {"param_cov": None}

    def __call__(self, model, x, y, z, weights=None, **k):
        if not isinstance(model, Ellipse):
            raise Unsupported("another model")
        i = len(Fitter.made)
        out = Ellipse()
        for k in out.param_names:
            getattr(out, k).fixed = getattr(model, k).fixed
        free = model.free()
        out.parameters = fresh_arr("par%d" % i, [4], owner=None)
        out.values = fresh_arr("fit%d" % i, [x.shape[0]], owner=None)
        out.cov = fresh_arr("cov%d" % i, [free, free], owner=None)
        out.start, out.data, out.weights, out.frees = model.start, (x, y, z), weights, free
        self.fit_info = {"param_cov": out.cov}
        Fitter.made.append(out)
        return out


class Ellipse:
    param_names = ("logamplitude", "ellip_transf", "theta", "gamma")

    def __init__(self, *p0):
        self.start = p0
        from types import SimpleNamespace
        for n in self.param_names:
            setattr(self, n, SimpleNamespace(fixed=False))

    def free(self):
        return sum(not getattr(self, n).fixed for n in self.param_names)

    @property
    def fixed(self):
        return {n: getattr(self, n).fixed for n in self.param_names}

    def __call__(self, x, y):
        return self.values


def elliptical(fixed, radial):
    @S.contract(P + "elliptical_powerlaw.py: fit_elliptical_powerlaw", name="surface_fit" + "_fixed" * fixed + "_radial" * radial)
    def f(c):
        from types import SimpleNamespace
        from turbustat.statistics import elliptical_powerlaw as mod
        n = fresh_int("n", 5)
        v, x, y = (fresh_arr(k, [n], nan=k == "v", inf=k == "v") for k in ("v", "x", "y"))
        p0 = tuple(fresh_real("p%d" % i) for i in range(4))
        Fitter.made = []
        with patched(mod, fitting=SimpleNamespace(LevMarLSQFitter=Fitter), LogEllipticalPowerLaw2D=Ellipse):
            k, e = outcome(mod.fit_elliptical_powerlaw, v, x, y, p0, fix_ellip_params=bool(fixed), radial_weighting=bool(radial))
        if k == "exc":
            c.prove("refused only for a missing value", And_(isinstance(e, ValueError), lift(np_.any(np_.logical_not(np_.isfinite(v)))).c))
            return
        c.prove("every value known", Not_(lift(np_.any(np_.logical_not(np_.isfinite(v)))).c))
        par, std, model, fitter = e
        fits = Fitter.made
        if model not in fits:
            raise Unsupported("model of another fit")
        c.prove("every fit has all the points", all(q.data[0] is x and q.data[1] is y and q.data[2] is v for q in fits))
        for q in fits:
            if not radial:
                c.prove("no weights", q.weights is None)
            else:
                r = skolem(c, [n], "pt")
                d = x.get(r).v * x.get(r).v + y.get(r).v * y.get(r).v
                w = q.weights.get(r)
                c.prove("weights of the points", Or_(d == 0, And_(w.v * core.R1["SQRT"](d) == 1, Not_(w.nan))))
        res = [lift(np_.sum(np_.abs(v - q.values))) for q in fits]
        for q, s in zip(fits, res):
            c.prove("no fit has smaller residuals", Or_(s.v >= res[fits.index(model)].v, s.nan))
        c.prove("parameters of the model", And_(*[same(par[i], model.parameters.get((i,))) for i in range(4)]))
        idx = [i for i in range(4) if not (fixed and i in (1, 2))]
        c.prove("one error per parameter", std.shape[0] == 4)
        for j, i in enumerate(idx):
            d = model.cov.get((j, j)).v
            c.prove("error of parameter %d is that of the fit" % i,
                    And_(lift(std[i]).v * lift(std[i]).v == z3.If(d >= 0, d, -d), lift(std[i]).v >= 0, Not_(lift(std[i]).nan)))
        req_unchanged(c, "fit_elliptical_powerlaw", v, x, y)


for _f in (0, 1):
    for _r in (0, 1):
        elliptical(_f, _r)


# velocity coordinate spectrum --------------------------------------------------------
def vcs_fits(tag, ulo, uhi, logb):
    @S.contract(P + "vca_vcs/vcs.py: VCS.fit_pspec", name="vcs_" + tag)
    def f(c):
        from turbustat.statistics.vca_vcs import vcs as mod
        h = stubs.header(spec=True)
        o = obj(c, mod.VCS, h)
        n, a, b = fresh_int("nchan", 4), fresh_int("ny", 1), fresh_int("nx", 1)
        o._data = fresh_arr("cube", [n, a, b])
        p1 = fresh_arr("ps", [n], gt=0)
        o._ps1D = p1
        o.freqs = SQuantity(np_.abs(np_.fft.fftfreq(n)), u.pix ** -1)
        lo, hi = limit(c, "low_cut", ulo), limit(c, "high_cut", uhi)
        brk = fresh_real("brk", **({} if logb else {"gt": 0}))
        Seg.made = []
        with patched(mod, Lm_Seg=Seg):
            o.fit_pspec(low_cut=lo, high_cut=hi, breaks=brk, log_break=logb)
        if len(Seg.made) != 1:
            raise Unsupported("%d segmented fits" % len(Seg.made))
        s = Seg.made[0]
        w = abs(h.spec_delta)
        fac = lambda un: lift(1.0) if un == u.pix ** -1 else w if un == (u.m / u.s) ** -1 else w / 1000.
        N = to_real(n)
        top = to_real(lift(np_.max(o.freqs.value)))
        plo = 0.98 / N if lo is None else lo.value * fac(ulo)
        phi = top * 1.01 if hi is None else hi.value * fac(uhi)
        c.prove("reported limits", And_(same(to_real(lift(o.low_cut.value)), plo), same(to_real(lift(o.high_cut.value)), phi)))
        # the positive frequencies k / n below one half are at k = 1 ... ceil(n / 2) - 1
        m = SInt((zi_(n.e) + 1) / 2 - 1)
        fr = lambda r: to_real(SInt(zi_(r[0]) + 1)) / N

        def inside(r):
            return And_(fr(r).v > plo.v, fr(r).v <= phi.v)
        chosen(c, "frequencies", s.x, [m], inside, lambda r: np_.log10(fr(r)))
        chosen(c, "powers", s.y, [m], inside, lambda r: np_.log10(p1.get((r[0] + 1,))))
        c.prove("starting break", same(to_real(lift(s.start)), brk if logb else np_.log10(brk)))
        c.prove("reported slopes", o.slope is s.slopes and o.slope_err is s.slope_errs)
        req_unchanged(c, "fit_pspec", p1)


KMS = (u.km / u.s) ** -1
MS = (u.m / u.s) ** -1
for a in [("pix", u.pix ** -1, u.pix ** -1, True), ("ms", MS, KMS, True), ("low", MS, None, False), ("open", None, None, True)]:
    vcs_fits(*a)
