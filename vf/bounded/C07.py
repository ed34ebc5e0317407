"""Points that real fits use, read back from the fitted statsmodels objects."""
import warnings
import numpy as np
import astropy.units as u
from ..bcore import Violation, Skip, registry, bare
from .util import need, close, expect, image, hdr2, hdr3, Frozen
CHECKS, check = registry()
P = "turbustat/statistics/"
DIST = 140 * u.pc
PIX = 0.02


def given(rng, pix, freq=False):
    """a length (or frequency) of so many pixels, in some unit"""
    k = rng.choice(["pix", "deg", "arcmin", "pc"])
    if k == "pix":
        return pix / u.pix if freq else pix * u.pix
    if k == "pc":
        f = (PIX * u.deg).to(u.rad).value * DIST
    else:
        f = (PIX * u.deg).to(k)
    return pix / f if freq else pix * f


def limits(rng, xs, freq=False):
    """limits strictly between the measured positions"""
    xs = np.sort(np.unique(xs))
    mid = np.sqrt(xs[1:] * xs[:-1])
    lo = hi = None
    if rng.rand() < .7:
        lo = mid[rng.randint(0, max(1, len(mid) // 3))]
    if rng.rand() < .7:
        hi = mid[rng.randint(2 * len(mid) // 3, len(mid))]
    return lo, hi


def q(rng, v, freq=False):
    return None if v is None else given(rng, v, freq)


def stat(cls, data=None, h=None, **kw):
    o = bare(cls)
    o._header = h if h is not None else hdr2(pix=PIX)
    o._distance = DIST
    o._data = data
    if hasattr(cls, "slope"):
        # results of an earlier fit
        o._slope = o._slope_err = o._slope_errs = "left over"
    if hasattr(cls, "slope2D"):
        for a in ("slope", "theta", "ellip"):
            setattr(o, "_%s2D" % a, "left over")
            setattr(o, "_%s2D_err" % a, "left over")
    return o


PAR, STD = np.array([1., .3, 4., -1.7]), np.array([.1, .2, .3, .4])


def surface(o):
    """the results of a surface fit are those reported"""
    need(o.slope2D == PAR[3] and o.slope2D_err == STD[3], "slope %s +/- %s of a surface fit giving %s +/- %s", o.slope2D, o.slope2D_err, PAR[3], STD[3])
    t = o.theta2D
    need(0 <= t < np.pi and abs(np.sin(t - PAR[2])) < 1e-9 and o.theta2D_err == STD[2], "angle %s +/- %s of a surface fit giving %s +/- %s", t, o.theta2D_err, PAR[2], STD[2])
    e = 1 / (1 + np.exp(-PAR[1]))
    need(close(o.ellip2D, e) and close(o.ellip2D_err, e * (1 - e) * STD[1]), "ellipticity %s +/- %s instead of %s +/- %s", o.ellip2D, o.ellip2D_err, e, e * (1 - e) * STD[1])


def result(o):
    need(o.slope == o.fit.params[1] and o.slope_err == o.fit.bse[1], "slope %s +/- %s is not that of the fit, %s +/- %s", o.slope, o.slope_err, o.fit.params[1], o.fit.bse[1])


def used(what, fit, x, y, w=None):
    ok = np.isfinite(y) if w is None else np.isfinite(y) & np.isfinite(w)
    m = fit.model
    need(m.endog.shape == (ok.sum(),), "%s: %d points are used, %d are valid and inside the limits", what, m.endog.size, ok.sum())
    need(close(m.exog[:, 1], np.log10(x[ok])), "%s: abscissae of the fit are %s, not %s", what, m.exog[:, 1], np.log10(x[ok]))
    need(close(m.endog, y[ok]), "%s: ordinates of the fit are not those of its points", what)
    if w is not None:
        r = m.weights / w[ok]
        need(close(r, np.full(r.shape, r[0]), rtol=1e-6), "%s: weights are not attached to their points", what)


def curve(rng):
    n = rng.randint(8, 20)
    x = np.sort(rng.uniform(1, 40, n))
    y = 3. * x ** rng.uniform(-1, 1) * np.exp(.1 * rng.normal(size=n))
    e = y * rng.uniform(.05, .2, n)
    if rng.rand() < .5:
        b = rng.randint(0, n, 2)
        y[b] = np.nan
        e[b] = np.nan
    return x, y, e


def inside(x, lo, hi):
    return (x >= (lo or 0)) & (x <= (hi or np.inf))


@check(P + "delta_variance/delta_variance.py: DeltaVariance.fit_plaw", quick=60, bound="8..20 lags with missing values, limits in four units")
def delvar(rng, k, hint):
    from turbustat.statistics import DeltaVariance
    x, y, e = curve(rng)
    o = stat(DeltaVariance)
    o._lags = given(rng, x)
    o._delta_var, o._delta_var_error = y, e
    lo, hi = limits(rng, x)
    m = inside(x, lo, hi)
    fr = Frozen(y=y, e=e, lags=o._lags)
    o.fit_plaw(xlow=q(rng, lo), xhigh=q(rng, hi))
    used("delta-variance", o.fit, x[m], np.log10(y[m]), e[m] ** -2)
    a, b = (v.to(u.pix).value for v in o.fit_range)
    need(abs(a - (lo or x.min() * .99)) < 1e-8 and abs(b - (hi or x.max() * 1.01)) < 1e-8, "reported range %s", o.fit_range)
    result(o)
    expect(ValueError, "break below the limits", o.fit_plaw, xlow=given(rng, x[2]), brk=given(rng, x[0] * .5))
    expect(ValueError, "break above the limits", o.fit_plaw, xhigh=given(rng, x[5]), brk=given(rng, x[-1] * 1.5))
    fr.check("fit_plaw")


@check(P + "wavelets/wavelet_transform.py: Wavelet.fit_transform", quick=60, bound="8..20 scales, limits in four units, weighted or not")
def wavelet(rng, k, hint):
    from turbustat.statistics import Wavelet
    x, y, e = curve(rng)
    o = stat(Wavelet)
    o._scales = given(rng, x)
    o._values, o._stddev = y, e
    lo, hi = limits(rng, x)
    m = inside(x, lo, hi)
    w = rng.rand() < .5
    fr = Frozen(y=y, e=e)
    o.fit_transform(xlow=q(rng, lo), xhigh=q(rng, hi), weighted_fit=bool(w))
    used("wavelet", o.fit, x[m], np.log10(y[m]), (e[m] / y[m]) ** -2 if w else None)
    a, b = (v.to(u.pix).value for v in o.fit_range)
    need(abs(a - (lo or x.min() * .99)) < 1e-8 and abs(b - (hi or x.max() * 1.01)) < 1e-8, "reported range %s", o.fit_range)
    result(o)
    expect(ValueError, "break below the limits", o.fit_transform, xlow=given(rng, x[2]), brk=given(rng, x[0] * .5))
    expect(ValueError, "break above the limits", o.fit_transform, xhigh=given(rng, x[5]), brk=given(rng, x[-1] * 1.5))
    fr.check("fit_transform")


@check(P + "wavelets, delta_variance, base_pspec2: break", quick=30, bound="24..40 points on a noisy broken power law, break guess in four units")
def broken(rng, k, hint):
    from turbustat.statistics import Wavelet, DeltaVariance
    from turbustat.statistics.lm_seg import Lm_Seg
    import io
    from contextlib import redirect_stdout
    n = rng.randint(24, 41)
    x = np.geomspace(1, 50, n)
    b = rng.uniform(6, 12)
    y = np.where(x < b, x / b, (x / b) ** -1.) * np.exp(.02 * rng.normal(size=n)) * 5
    e = y * rng.uniform(.05, .2, n)
    if k % 3 == 0:
        o = stat(Wavelet)
        o._scales, o._values, o._stddev = x * u.pix, y, e
        fit, f = o.fit_transform, 1
    elif k % 3 == 1:
        o = stat(DeltaVariance)
        o._lags, o._delta_var, o._delta_var_error = x * u.pix, y, e
        fit, f = o.fit_plaw, 1
    else:
        from turbustat.statistics import PowerSpectrum
        o = stat(PowerSpectrum)
        o._freqs, o._ps1D, o._ps1D_stddev = x / 100. / u.pix, y, e
        o._ps2D = np.ones((500, 500))
        f = .01
        fit = lambda **kw: o.fit_pspec(**kw)
    unit = u.pix if f == 1 else u.pix ** -1
    w = {} if k % 3 == 1 else {"weighted_fit": bool(rng.randint(2))}
    fit(brk=given(rng, 9. * f, f != 1), **w)
    # the model that was fit, refit by itself
    s = Lm_Seg(np.log10(x * f), np.log10(y), np.log10(9. * f), weights=e ** -2. if k % 3 == 1 else (.434 * e / y) ** -2. if w["weighted_fit"] else None)
    with redirect_stdout(io.StringIO()):
        s.fit_model(cov_type="HC3", verbose=False)
    if s.params.size != 5:
        raise Skip()
    need(o.brk is not None, "no break found on a broken power law")
    need(o.brk.unit == unit and close(o.brk.value, 10 ** s.brk, 1e-6), "break at %s instead of %g", o.brk, 10 ** s.brk)
    need(abs(o.brk.value / f - b) < 3.5, "break at %s, generated at %g", o.brk, b * f)
    need(abs(o.slope[0] - 1) < .5 and abs(o.slope[1] + 1) < .5, "slopes %s", o.slope)
    need(close(o.slope, s.slopes, 1e-6) and close(o.slope_err, s.slope_errs, 1e-6), "slopes %s +/- %s instead of %s +/- %s", o.slope, o.slope_err, s.slopes, s.slope_errs)
    be = np.log(10) * 10 ** s.brk * s.brk_err
    need(o.brk_err.unit == unit and close(o.brk_err.value, be, 1e-6), "error of the break %s instead of %s", o.brk_err, be)
    fit(**w)
    need(o.brk is None and o.brk_err is None, "a fit without a break reports %s +/- %s", o.brk, o.brk_err)
    need(np.isscalar(o.slope) and np.isscalar(o.slope_err), "a fit without a break reports slopes %s +/- %s", o.slope, o.slope_err)


@check(P + "scf/scf.py: SCF.fit_plaw", quick=40, bound="8..20 lags, limits in four units")
def scf(rng, k, hint):
    from turbustat.statistics import SCF
    x, y, e = curve(rng)
    o = stat(SCF, h=hdr3(pix=PIX))
    o._lags = given(rng, x)
    o._scf_spectrum, o._scf_spectrum_stddev = y, e
    lo, hi = limits(rng, x)
    m = inside(x, lo, hi)
    o.fit_plaw(xlow=q(rng, lo), xhigh=q(rng, hi))
    used("SCF", o.fit, x[m], np.log10(y[m]), e[m] ** -2)
    a, b = (o._to_pixel(v).value for v in (o.xlow, o.xhigh))
    need(abs(a - (lo or x.min())) < 1e-8 and abs(b - (hi or x.max())) < 1e-8, "reported range %s %s", a, b)
    result(o)
    expect(ValueError, "limits without a point", o.fit_plaw, xlow=given(rng, x.max() * 2))
    expect(TypeError, "limit without a unit", o.fit_plaw, xlow=3.)


@check(P + "scf/scf.py: SCF.fit_2Dplaw", quick=6, bound="surfaces of 9..15 lags a side with spacing 1..2 pixels")
def scf2d(rng, k, hint):
    from turbustat.statistics import SCF
    from turbustat.statistics.scf import scf as mod
    n = int(rng.choice([9, 11, 15]))
    step = rng.choice([1., 2.])
    o = stat(SCF, h=hdr3(pix=PIX))
    lag = (np.arange(n) - n // 2) * step
    o._lags = lag * u.pix
    yy, xx = np.meshgrid(lag, lag, indexing="ij")
    r = np.hypot(yy, xx)
    o._scf_surface = 1. / (1 + r) + 1e-3 * rng.rand(n, n)
    seen = []

    def ell(v, x, y, p0, **kw):
        seen.append((v, x, y))
        return PAR.copy(), STD.copy(), None, None
    old = mod.fit_elliptical_powerlaw
    mod.fit_elliptical_powerlaw = ell
    lo, hi = limits(rng, np.unique(np.round(r[r > 0], 6)))
    try:
        o.fit_2Dplaw(p0=(1, 0, 1, -1), xlow=q(rng, lo), xhigh=q(rng, hi))
    finally:
        mod.fit_elliptical_powerlaw = old
    m = (r > (lo or 0)) & (r <= (hi or np.abs(lag).max()))
    need(close(np.sort(seen[0][0]), np.sort(np.log10(o._scf_surface[m]))), "points of the surface fit")
    need(close(np.hypot(seen[0][1], seen[0][2]) * step, r[m]), "offsets of the surface fit")
    surface(o)


@check(P + "base_pspec2.py: fit_pspec", quick=60, bound="8..20 frequencies, limits in four units, weighted, unbinned on 8..20 pixel images")
def pspec(rng, k, hint):
    from turbustat.statistics import PowerSpectrum
    x, y, e = curve(rng)
    f = np.sort(1. / x / 2.1)
    o = stat(PowerSpectrum)
    sh = tuple(int(v) for v in rng.randint(8, 21, 2))
    o._ps2D = rng.rand(*sh) + .1
    o._freqs, o._ps1D, o._ps1D_stddev = f / u.pix, y, e
    lo, hi = limits(rng, f)
    plo = 2. / max(sh) if lo is None else lo
    mode = rng.choice(["plain", "weighted", "unbinned"])
    if mode == "unbinned":
        gy = np.fft.fftshift(np.fft.fftfreq(sh[0]))[::-1]
        gx = np.fft.fftshift(np.fft.fftfreq(sh[1]))
        g = np.hypot(gy[:, None], gx[None])
        top = g.max() if hi is None else hi
        m = (g > plo) & (g <= top)
        if np.any(np.abs(g - plo) < 1e-9) or m.sum() < 4:
            raise Skip()
        o.fit_pspec(low_cut=q(rng, lo, True), high_cut=q(rng, hi, True), fit_unbinned=True)
        used("unbinned power spectrum", o.fit, g[m], np.log10(o.ps2D[m]))
    else:
        top = f.max() if hi is None else hi
        m = (f > plo) & (f <= top)
        if np.isfinite(y[m]).sum() < 4:
            raise Skip()
        w = mode == "weighted"
        o.fit_pspec(low_cut=q(rng, lo, True), high_cut=q(rng, hi, True), weighted_fit=w)
        used("power spectrum", o.fit, f[m], np.log10(y[m]), (e[m] / y[m]) ** -2 if w else None)
    need(abs(o.low_cut.to(1 / u.pix).value - plo) < 1e-9 and abs(o.high_cut.to(1 / u.pix).value - top) < 1e-9, "reported limits %s %s", o.low_cut, o.high_cut)
    result(o)


@check(P + "base_pspec2.py: fit_2Dpspec", quick=15, bound="8..20 pixel power maps, limits in four units, with and without a wedge mask")
def pspec2d(rng, k, hint):
    from turbustat.statistics import PowerSpectrum
    from turbustat.statistics import base_pspec2 as mod
    o = stat(PowerSpectrum)
    sh = tuple(int(v) for v in rng.randint(8, 21, 2))
    o._ps2D = rng.rand(*sh) + .1
    o._freqs = np.linspace(.05, .5, 9) / u.pix
    gy = np.fft.fftshift(np.fft.fftfreq(sh[0]))[::-1]
    gx = np.fft.fftshift(np.fft.fftfreq(sh[1]))
    g = np.hypot(gy[:, None], gx[None])
    lo, hi = limits(rng, np.unique(np.round(g[g > 0], 9)))
    plo, top = 2. / max(sh) if lo is None else lo, .5 if hi is None else hi
    wedge = rng.rand(*sh) < .8
    o._azim_mask = wedge
    use = bool(rng.rand() < .5)
    seen = []

    def ell(v, x, y, p0, **kw):
        seen.append((v, x, y))
        return PAR.copy(), STD.copy(), None, None
    old = mod.fit_elliptical_powerlaw
    mod.fit_elliptical_powerlaw = ell
    try:
        o.fit_2Dpspec(p0=(1, 0, 1, -1), low_cut=q(rng, lo, True), high_cut=q(rng, hi, True), use_azimmask=use)
    finally:
        mod.fit_elliptical_powerlaw = old
    m = (g > plo) & (g <= top)
    if np.any(np.abs(g - plo) < 1e-9) or np.any(np.abs(g - top) < 1e-9):
        raise Skip()
    if use:
        m &= wedge
    need(len(seen) == 1 and close(seen[0][0], np.log10(o.ps2D[m])), "points of the surface fit")
    need(close(np.hypot(seen[0][1], seen[0][2]), g[m]), "frequencies of the surface fit")
    surface(o)


@check(P + "elliptical_powerlaw.py: fit_elliptical_powerlaw", quick=8, bound="noisy elliptical power laws on 17..25 pixel grids, ellipticity and angle free or fixed, with and without radial weights")
def surface_fit(rng, k, hint):
    from turbustat.statistics.elliptical_powerlaw import fit_elliptical_powerlaw
    n = int(rng.choice([17, 21, 25]))
    y, x = np.mgrid[:n, :n] - n // 2.
    m = np.hypot(y, x) > 0
    y, x = y[m], x[m]

    def law(p):
        e = 1 / (1 + np.exp(-p[1]))
        c, s = np.cos(p[2]), np.sin(p[2])
        return p[0] + .5 * p[3] * np.log10((e * (x * c - y * s)) ** 2 + (x * s + y * c) ** 2)
    fixed, radial = bool(k % 2), bool(k // 2 % 2)
    true = np.array([1., 40. if fixed else rng.uniform(-1., .5), rng.uniform(.1, 3.), rng.uniform(-3, -1)])
    v = law(true) + .05 * rng.normal(size=x.size)
    fr = Frozen(v=v, x=x, y=y)
    par, std, model, fitter = fit_elliptical_powerlaw(v, x, y, (1., 0., np.pi / 2, -1.), fix_ellip_params=fixed, radial_weighting=radial)
    fr.check("fit_elliptical_powerlaw")
    need(len(par) == 4 and len(std) == 4, "%d parameters with %d errors", len(par), len(std))
    w = 1 / np.hypot(x, y) if radial else np.ones(x.size)
    free = [0, 3] if fixed else [0, 1, 2, 3]
    at = np.where(np.isinf(par), 40., par)
    res = (v - law(at)) * w
    if not fixed and np.sum(np.abs(v - law(at))) > 1.05 * np.sum(np.abs(v - law(true))):
        raise Skip()
    need(close(model(x, y), law(at), 1e-6), "the model returned is not that of the parameters")
    J = np.array([(law(at + 1e-5 * np.eye(4)[i]) - law(at - 1e-5 * np.eye(4)[i])) / 2e-5 * w for i in free]).T
    need(np.abs(J.T.dot(res)).max() < 1e-2 * np.sqrt((res ** 2).sum() * (J ** 2).sum(0).max()), "the fit is not a least-squares fit of its points")
    # weights count as inverse errors, without them the scatter sets the scale
    ref = np.sqrt(np.diag(np.linalg.inv(J.T.dot(J))) * (1. if radial else res.dot(res) / (x.size - len(free))))
    need(np.allclose(np.asarray(std)[free], ref, rtol=.02), "errors %s instead of %s", np.asarray(std)[free], ref)


@check(P + "vca_vcs/vcs.py: VCS.fit_pspec", quick=25, bound="cubes of 12..31 channels, limits in channels or velocity")
def vcs(rng, k, hint):
    from turbustat.statistics import VCS
    from turbustat.statistics.vca_vcs import vcs as mod
    n = int(rng.randint(12, 32))
    dv = rng.choice([-200., 150.])
    o = VCS((rng.normal(size=(n, 4, 5)), hdr3(pix=PIX, dv=dv)))
    o.compute_pspec()
    f = np.arange(1, (n + 1) // 2) / n
    lo, hi = limits(rng, f)

    def g(v):
        if v is None:
            return None
        c = rng.choice(3)
        return v / u.pix if c == 0 else v / (abs(dv) * u.m / u.s) if c == 1 else v / (abs(dv) / 1000 * u.km / u.s)
    seen = []

    class Seg:
        def __init__(s, x, y, brk, **kw):
            seen.append((x, y, brk))
            s.params, s.slopes, s.slope_errs = np.zeros(5), rng.normal(size=2), rng.rand(2)
            s.brk, s.brk_err = rng.rand(2)

        def fit_model(s, **kw):
            pass
    old = mod.Lm_Seg
    mod.Lm_Seg = Seg
    try:
        o.fit_pspec(breaks=-.8, low_cut=g(lo), high_cut=g(hi))
    finally:
        mod.Lm_Seg = old
    m = (f > (lo or 0)) & (f <= (hi or 1))
    need(close(seen[-1][0], np.log10(f[m])), "frequencies of the fit with %d channels: %s", n, 10 ** seen[-1][0])
    need(close(seen[-1][1], np.log10(o.ps1D[1:(n + 1) // 2][m])), "powers of the fit")
    need(close(o.slope, o.fit.slopes) and close(o.slope_err, o.fit.slope_errs), "slopes %s +/- %s are not those of the fit", o.slope, o.slope_err)
    need(o.brk == o.fit.brk and o.brk_err == o.fit.brk_err, "break %s +/- %s is not that of the fit", o.brk, o.brk_err)


@check(P + "pca/pca.py: PCA.fit_plaw", quick=20, bound="8..20 components with missing widths, limits in four units")
def pca(rng, k, hint):
    from turbustat.statistics import PCA
    from turbustat.statistics.pca import pca as mod
    x, y, e = curve(rng)
    n = len(x)
    xe = x * rng.uniform(.05, .2, n)
    for a in (xe, e, y):
        if rng.rand() < .4:
            a[rng.randint(0, n)] = np.nan
    o = stat(PCA, h=hdr3(pix=PIX))
    o._spatial_width, o._spatial_width_error = x * u.pix, xe * u.pix
    o._spectral_width, o._spectral_width_error = y * u.pix, e * u.pix
    lo, hi = limits(rng, x)
    m = inside(x, lo, hi) & np.isfinite(x) & np.isfinite(y) & np.isfinite(xe) & np.isfinite(e)
    if m.sum() < 2:
        raise Skip()
    seen = []

    def lin(a, b, da, db, **kw):
        seen.append((a, b, da, db))
        return np.array([.5, .1]), np.array([.2, .3])
    old = mod.leastsq_linear
    mod.leastsq_linear = lin
    try:
        o.fit_plaw(xlow=q(rng, lo), xhigh=q(rng, hi))
    finally:
        mod.leastsq_linear = old
    ref = np.log10(x[m]), np.log10(y[m]), .434 * xe[m] / x[m], .434 * e[m] / y[m]
    need(len(seen) == 1 and all(close(a, b) for a, b in zip(seen[0], ref)), "points and errors of the PCA fit")
    need(o.index == .5 and close(o.index_error_range, [.3, .7]), "index %s in %s of a fit giving 0.5 +/- 0.2", o.index, o.index_error_range)
    f = 10. ** np.array([.1, -.2, .4])
    need(close(o.intercept(unit=u.pix).value, f[0]) and close(o.intercept_error_range(unit=u.pix).value, f[1:]), "intercept %s in %s", o.intercept(unit=u.pix), o.intercept_error_range(unit=u.pix))
    expect(ValueError, "limits without a point", o.fit_plaw, xlow=given(rng, x.max() * 2))


@check(P + "fitting_utils.py: clip_func, check_fit_limits", quick=20, bound="arrays up to 12 values")
def helpers(rng, k, hint):
    from turbustat.statistics.fitting_utils import clip_func, check_fit_limits
    a = rng.randint(0, 9, 12) * 1.
    lo, hi = rng.randint(0, 9, 2) * 1.
    need(np.array_equal(clip_func(a, lo, hi), (a > lo) & (a <= hi)), "clip_func")
    l, h = check_fit_limits(None, 3 * u.pix)
    need(list(l) == [None, None] and len(h) == 2 and all(v == 3 * u.pix for v in h), "check_fit_limits")
    l, h = check_fit_limits([1, 2] * u.deg, [5, 6] * u.pix)
    need(l[0] == 1 * u.deg and l[1] == 2 * u.deg and h[1] == 6 * u.pix, "separate limits")
    expect(ValueError, "three limits", check_fit_limits, [1, 2, 3] * u.pix, None)
    expect(ValueError, "three upper limits", check_fit_limits, None, [1, 2, 3] * u.pix)
