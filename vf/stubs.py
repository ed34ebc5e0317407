"""Stand-ins (trusted contracts) for library functions called by the verified
code.  Each behaves as the real function when its arguments are concrete."""
import copy as _copy
import math
import random as _random
import warnings
import numpy as np
import numpy.fft
import numpy.random
import z3
import astropy.units as u
from . import core
from .core import Unsupported, ctx, Or_, And_, Not_, zb, rv, b_false
from . import values as V
from .values import (SArr, SSel, SReal, SInt, SBool, SCplx, SQuantity, Scalar, Sym, lift, arr,
                     to_real, to_int, to_bool, zi, zi_, In, Rl, Bo, arrid, ArrSort)
from . import nps, rt
from .nps import np_shim, any_sym, Red
from .loader import substitute

TRUSTED = {}      # name -> note


def stub(real, name, rule, note=""):
    TRUSTED[name] = note

    def f(*a, **k):
        hooks = core.CUR.__dict__.get("hooks", {}) if core.CUR is not None else {}
        if name in hooks:
            return hooks[name](*a, **k)
        if not (any_sym(a) or any_sym(k)):
            return real(*a, **k)
        if rule is None:
            raise Unsupported("%s on symbolic values" % name)
        return rule(*a, **k)
    f.real = real
    f.__name__ = name
    substitute(real, f)
    return f


# numpy, math, random -------------------------------------------------------
substitute(np, np_shim)
substitute(np.fft, np_shim.fft)
substitute(np.random, np_shim.random)
substitute(np.linalg, np_shim.linalg)


def _rng_context():
    from astropy.utils import NumpyRNGContext as real
    import astropy.utils.misc

    def NumpyRNGContext(seed):
        if core.CUR is not None and getattr(core.CUR, "rng", None):
            from . import rng
            return rng.RNGContext(seed)
        return real(seed)
    substitute(real, NumpyRNGContext)


_rng_context()
substitute(math, rt.math_shim)
for n_ in ("fftshift", "ifftshift", "fftfreq", "fftn", "ifftn", "rfftn", "rfftfreq", "fft", "ifft", "fft2", "ifft2"):
    def _mk(n_=n_):
        def f(*a, **k):
            return getattr(np_shim.fft, n_)(*a, **k)
        f.__name__ = n_
        return f
    substitute(getattr(np.fft, n_), _mk())

# copying -------------------------------------------------------------------


def _sym_copy(self, *a):
    return self


def _arr_copy(self, *a):
    return self.copy()


for cls in (SBool, SInt, SReal, SCplx):
    cls.__copy__ = _sym_copy
    cls.__deepcopy__ = _sym_copy
for cls in (SArr, SSel, SQuantity):
    cls.__copy__ = _arr_copy
    cls.__deepcopy__ = _arr_copy


def _q_copy(self, *a):
    v = self.value
    return SQuantity(v.copy() if isinstance(v, (SArr, SSel)) else v, self.unit)


SQuantity.__copy__ = _q_copy
SQuantity.__deepcopy__ = _q_copy
SQuantity.copy = _q_copy

# astropy.wcs ---------------------------------------------------------------
from astropy.wcs import WCS as _WCS
from astropy.wcs import utils as _wu
import astropy.wcs as _awcs


class _WcsParams:
    pass


class SWCS:
    """WCS of a symbolic header: pixel scales, units, spectral axis"""

    def __init__(self, hdr):
        self.hdr = hdr
        self.wcs = _WcsParams()
        self.wcs.cunit = [u.deg, u.deg] + ([hdr.spec_unit] if getattr(hdr, "spec_unit", None) is not None else [])
        self.wcs.spec = 2 if getattr(hdr, "spec_unit", None) is not None else -1
        self.celestial = self

    @property
    def pixel_scale_matrix(self):
        h = self.hdr

        class M:
            def __getitem__(s, k):
                if k == (2, 2):
                    return h.spec_delta
                raise Unsupported("pixel_scale_matrix%r" % (k,))
        return M()

    def get_axis_types(self):
        t = [{"coordinate_type": "celestial"}, {"coordinate_type": "celestial"}]
        if getattr(self.hdr, "spec_unit", None) is not None:
            t.append({"coordinate_type": "spectral"})
        return t


class WCSShim:
    def __call__(self, hdr=None, *a, **k):
        if isinstance(hdr, rt.SHeader):
            return SWCS(hdr)
        return _WCS(hdr, *a, **k)

    def __getattr__(self, n):
        return getattr(_WCS, n)


substitute(_WCS, WCSShim())


def _pps(w):
    return [w.hdr.pix_scale_x, w.hdr.pix_scale_y] + ([w.hdr.spec_delta] if w.wcs.spec >= 0 else [])


def _stub_wcs(name, rule):
    real = getattr(_wu, name)

    def f(w, *a, **k):
        if isinstance(w, SWCS):
            return rule(w, *a, **k)
        return real(w, *a, **k)
    substitute(real, f)
    TRUSTED["astropy.wcs.utils." + name] = "pixel scales of the header"


_stub_wcs("proj_plane_pixel_scales", _pps)
_stub_wcs("is_proj_plane_distorted", lambda w, *a, **k: w.hdr.distorted)


class _ModShim:
    """a module whose stubbed members are replaced"""

    def __init__(self, mod, **sub):
        self.__dict__["_mod"], self.__dict__["_sub"] = mod, sub

    def __getattr__(self, n):
        if n in self._sub:
            return self._sub[n]
        return _replaced(getattr(self._mod, n))


def _replaced(x):
    from . import loader
    return loader.vc_sub(x)


substitute(_wu, _ModShim(_wu))
substitute(_awcs, _ModShim(_awcs, utils=_ModShim(_wu)))


def header(name="hdr", spec=False, square=True):
    """a symbolic FITS header: positive pixel scale in degrees, optional channel width"""
    h = rt.SHeader()
    h.pix_scale_x = V.fresh_real(name + "_pixscale", gt=0)
    h.pix_scale_y = h.pix_scale_x if square else V.fresh_real(name + "_pixscale_y", gt=0)
    h.distorted = False if square else V.fresh_bool(name + "_distorted")
    if spec:
        h.spec_delta = V.fresh_real(name + "_spec_delta")
        ctx().assume(h.spec_delta.v != 0)
        h.spec_unit = u.m / u.s
    return h


# radio_beam ----------------------------------------------------------------
try:
    from radio_beam import Beam as _Beam
    from radio_beam.beam import NoBeamException

    class BeamShim:
        def from_fits_header(self, h, *a, **k):
            if isinstance(h, rt.SHeader):
                raise NoBeamException("no beam")
            return _Beam.from_fits_header(h, *a, **k)

        def __call__(self, *a, **k):
            return _Beam(*a, **k)

        def __getattr__(self, n):
            return getattr(_Beam, n)
except ImportError:
    pass

# binned_statistic ----------------------------------------------------------
from scipy.stats import binned_statistic as _bs
import scipy.stats as _st


def binned_statistic(x, values, statistic="mean", bins=10, range=None):
    """bin k holds the selected samples with edge[k] <= x < edge[k+1] (the last
    bin includes its right edge); statistic over them"""
    if not isinstance(bins, (SArr, np.ndarray, list)):
        raise Unsupported("binned_statistic with a bin count")
    e = arr(bins)
    ef, nb = e.snap(), V._add(e._shape[0], -1)
    if isinstance(x, SArr) and isinstance(values, SArr):
        xf, vf, dims = x.snap(), values.snap(), x._shape
        mask = lambda r: SBool(True)
        kind = values.kind
    elif isinstance(x, SSel) and isinstance(values, SSel):
        if not x.same_mask(values.mask):
            raise Unsupported("binned_statistic of differently masked samples")
        xf, vf, dims, mask = x.fn, values.fn, x.bdims, x.mask
        kind = values.kind
    else:
        raise Unsupported("binned_statistic arguments")

    def member(k, r):
        xv, lo, hi = to_real(xf(r)), to_real(ef((k,))), to_real(ef((V._add(k, 1),)))
        last = zi_(k) == zi_(nb) - 1
        inb = And_(V.r_cmp("le", lo, xv).c, Or_(V.r_cmp("lt", xv, hi).c, And_(last, V.r_cmp("eq", xv, hi).c)))
        return And_(to_bool(mask(r)).c, inb)
    sels = {}

    def sel(k):
        return SSel(dims, vf, lambda r: SBool(member(k, r)), kind)
    real_stat = getattr(statistic, "real", statistic)

    def f(idx):
        s = sel(idx[0])
        n = to_real(SInt(s.count()))
        if statistic == "count":
            return n
        if statistic == "sum":
            return nps.r_sum(s)
        if statistic == "mean" or real_stat is np.mean:
            r = nps.r_mean(s)
        elif real_stat is np.nanmean:
            r = nps.r_mean(s, skipnan=True)
        elif callable(statistic):
            # called on the samples of the bin; scipy gives statistic([]) for empty bins
            r = statistic(s)
        else:
            raise Unsupported("binned_statistic %r" % (statistic,))
        return to_real(r)
    out = SArr.new([nb], f, "f")
    ctx().log.append(("binned_statistic", dict(x=x, values=values, edges=e, member=member, out=out,
                                               statistic=statistic, sel=sel)))
    return out, e, None


stub(_bs, "scipy.stats.binned_statistic", binned_statistic,
     "bin membership edge[k] <= x < edge[k+1], last bin closed; mean/sum/count/user statistic over the members")

from scipy.stats import t as _t_dist


class TDist:
    def ppf(self, q, df, *a, **k):
        if not any_sym((q, df)):
            return _t_dist.ppf(q, df, *a, **k)
        PPF = z3.Function("T_PPF", Rl, Rl, Rl)

        def f(qq, d):
            qq, d = to_real(qq), to_real(d)
            return SReal(PPF(qq.v, d.v), Or_(qq.nan, d.nan, d.v <= 0))
        return V.elementwise(f, q, df)

    def __getattr__(self, n):
        return getattr(_t_dist, n)


substitute(_t_dist, TDist())

# statsmodels -----------------------------------------------------------------
import statsmodels.api as _sm


class FitResult:
    """opaque result of a linear model; the model that produced it is recorded"""

    def __init__(self, model):
        self.model = model
        c = ctx()
        nm = "fit%d" % len([e for e in c.log if e[0] == "fit"])
        self.params = V.fresh_arr(nm + "_params", [2], owner=None)
        self.bse = V.fresh_arr(nm + "_bse", [2], owner=None, ge=0)
        self.fittedvalues = model.endog * 0.0 if False else None
        self.resid = None
        self.rsquared = V.fresh_real(nm + "_r2")
        c.log.append(("fit", self))

    def predict(self, *a, **k):
        raise Unsupported("predict")

    def get_robustcov_results(self, *a, **k):
        return self

    def cov_params(self):
        raise Unsupported("cov_params")

    def conf_int(self, *a, **k):
        raise Unsupported("conf_int")


class Model:
    def __init__(self, kind, endog, exog, weights=None, **k):
        self.kind, self.endog, self.exog, self.weights = kind, endog, exog, weights

    def fit(self, *a, **k):
        self.fit_args, self.fit_kw = a, k
        return FitResult(self)


class AddConst:
    """sm.add_constant(x): design matrix [1, x]"""

    def __init__(self, x):
        self.x = x


class SMShim:
    def add_constant(self, x, **k):
        if not any_sym(x):
            return _sm.add_constant(x, **k)
        return AddConst(x)

    def OLS(self, endog, exog=None, **k):
        if not any_sym(endog) and not isinstance(exog, AddConst):
            return _sm.OLS(endog, exog, **k)
        return Model("OLS", endog, exog, **k)

    def WLS(self, endog, exog=None, weights=1.0, **k):
        if not any_sym(endog) and not isinstance(exog, AddConst):
            return _sm.WLS(endog, exog, weights=weights, **k)
        return Model("WLS", endog, exog, weights=weights, **k)

    def __getattr__(self, n):
        return getattr(_sm, n)


substitute(_sm, SMShim())
TRUSTED["statsmodels OLS/WLS"] = "records endog, exog, weights; returns unknown parameters and non-negative standard errors"

# misc ------------------------------------------------------------------------
from astropy.utils.console import ProgressBar as _PB


class _PBStub:
    def __init__(self, *a, **k):
        pass

    def update(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


substitute(_PB, _PBStub)
import itertools as _it
substitute(_it.product, rt.vc_product)


def _warn(*a, **k):
    return None


substitute(warnings.warn, _warn)


class WarningsShim:
    def __getattr__(self, n):
        return _warn if n == "warn" else getattr(warnings, n)


substitute(warnings, WarningsShim())


def _deepcopy(x, memo=None):
    return _copy.deepcopy(x) if memo is None else _copy.deepcopy(x, memo)


# splines ---------------------------------------------------------------------
from scipy.interpolate import InterpolatedUnivariateSpline as _IUS


class SplineStub:
    """the interpolating spline: one real function fixed by the knots, values and order"""

    def __new__(cls, x, y, *a, **k):
        if not any_sym((x, y)):
            return _IUS(x, y, *a, **k)
        return object.__new__(cls)

    def __init__(self, x, y, w=None, bbox=None, k=3, **kw):
        self.x, self.y, self.k = arr(x), arr(y), k

    def __call__(self, p, *a, **k):
        x, y = self.x, self.y
        p = lift(p) if not isinstance(p, (SArr, SSel)) else p
        d = z3.Function("SPLINE%s" % self.k, ArrSort, ArrSort, Rl, Rl)
        kx, ky = arrid(x), arrid(y)
        if isinstance(p, Scalar):
            return SReal(d(kx, ky, to_real(p).v))
        return p.map(lambda v: SReal(d(kx, ky, to_real(v).v)), "f") if isinstance(p, SSel) else \
            SArr.new(p._shape, (lambda f: lambda idx: SReal(d(kx, ky, to_real(f(idx)).v)))(p.snap()), "f")


substitute(_IUS, SplineStub)
TRUSTED["scipy InterpolatedUnivariateSpline"] = "some real function fixed by its knots, values and order"


# empirical distribution -------------------------------------------------------
from statsmodels.distributions.empirical_distribution import ECDF as _ECDF


class ECDFStub:
    """the share of the sample that is not above the value"""

    def __new__(cls, x, side="right"):
        if not any_sym(x):
            return _ECDF(x, side=side)
        return object.__new__(cls)

    def __init__(self, x, side="right"):
        if side != "right":
            raise Unsupported("ECDF side")
        self.x = x if isinstance(x, (SArr, SSel)) else arr(x)

    def __call__(self, v):
        R = Red(self.x)

        def one(s):
            s = to_real(s)

            def body(r):
                e = to_real(R.el((), r))
                return core.If_(zb(And_(R.selc((), r), (e <= s).c)), z3.IntVal(1), z3.IntVal(0)) \
                    if hasattr(core, "If_") else z3.If(zb(And_(R.selc((), r), (e <= s).c)), z3.IntVal(1), z3.IntVal(0))
            n = ctx().functional("isum", R.rd, body, sort=In)
            return V.r_div(to_real(SInt(n)), to_real(SInt(zi_(R.count(())))))
        v = v if isinstance(v, (SArr, SSel)) else lift(v)
        if isinstance(v, Scalar):
            return one(v)
        if isinstance(v, SSel):
            return v.map(one, "f")
        f = v.snap()
        return SArr.new(v._shape, lambda idx: one(f(idx)), "f")


substitute(_ECDF, ECDFStub)
TRUSTED["statsmodels ECDF"] = "share of the sample at or below the value"


# angles ------------------------------------------------------------------------
from astropy.coordinates import Angle as _Angle


class SAngle(SQuantity):
    def wrap_at(self, w, inplace=False):
        """the same angle in [w - one turn, w)"""
        turn = u.Quantity(360, u.deg).to(self.unit).value
        top = u.Quantity(w).to(self.unit).value
        v = self.value

        def f(x):
            x = to_real(x)
            k = V.s_floor((x - (top - turn)) / turn)
            return x - to_real(k) * turn
        return SAngle(V.elementwise(f, v), self.unit)

    def __getitem__(self, k):
        return SAngle(self.value[k], self.unit)


class AngleShim:
    def __call__(self, x, unit=None, **k):
        if isinstance(x, (list, tuple)) and any(isinstance(y, SQuantity) for y in x):
            un = x[0].unit
            return SAngle(arr([lift(y.to(un).value) for y in x]), un)
        if isinstance(x, SQuantity):
            return SAngle(x.value, x.unit)
        if nps.any_sym(x):
            return SAngle(x, unit)
        return _Angle(x, unit=unit, **k)

    def __getattr__(self, n):
        return getattr(_Angle, n)


substitute(_Angle, AngleShim())
TRUSTED["astropy Angle.wrap_at"] = "adds whole turns so that the angle lies in [w - turn, w)"


# quantities ----------------------------------------------------------------------


class QFake(metaclass=rt._FakeMeta):
    """u.Quantity(...)"""
    real = u.Quantity

    def __new__(cls, x, unit=None, **k):
        if isinstance(x, (list, tuple)) and any(isinstance(y, SQuantity) for y in x):
            un = u.Unit(unit) if unit is not None else x[0].unit
            return SQuantity(arr([lift(y.to(un).value) for y in x]), un)
        if isinstance(x, SQuantity):
            return x.to(unit).copy() if unit is not None else x.copy()
        if any_sym(x):
            return SQuantity(x.copy() if isinstance(x, (SArr, SSel)) else x, unit if unit is not None else u.dimensionless_unscaled)
        return u.Quantity(x, unit=unit, **k)


nps.FAKE[QFake] = u.Quantity
substitute(u.Quantity, QFake)
substitute(u, _ModShim(u, Quantity=QFake))
