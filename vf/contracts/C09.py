"""Spectral correlation function."""
from ..harness import *
from .. import nps, stubs, core
from ..values import SQuantity, SArr, SReal, SInt, SBool, arrid, ArrSort, zi_
import astropy.units as u
import numpy as np

S = Suite("C09")
P = "turbustat/statistics/scf/scf.py: "
U = "turbustat/statistics/stats_utils.py: "
np_ = nps.np_shim


def fin(v):
    return And_(Not_(v.nan), Not_(v.inf))


class patched:
    def __init__(self, mod, **new):
        self.mod, self.new, self.old = mod, new, {}

    def __enter__(self):
        for k, f in self.new.items():
            if not hasattr(self.mod, k):
                raise Unsupported("%s is not there" % k)
            self.old[k] = getattr(self.mod, k)
            setattr(self.mod, k, f)
        return self

    def __exit__(self, *a):
        for k, f in self.old.items():
            setattr(self.mod, k, f)
        return False


def fshift(x, shift, axis=0):
    """fourier_shift by its contract: some array of the same shape fixed by input, shift and axis"""
    x = arr(x)
    k, s = arrid(x), to_real(lift(shift)).v
    nd = x.ndim
    f = z3.Function("FSHIFT%d" % axis, k.sort(), z3.RealSort(), *([z3.IntSort()] * nd + [z3.RealSort()]))
    g = z3.Function("FSHIFTn%d" % axis, k.sort(), z3.RealSort(), *([z3.IntSort()] * nd + [z3.BoolSort()]))
    return SArr.new(list(x._shape), lambda idx: SReal(f(k, s, *[zi_(i) for i in idx]), g(k, s, *[zi_(i) for i in idx])), "f")


@S.contract(U + "pixel_shift")
def shift(c):
    from turbustat.statistics.stats_utils import pixel_shift
    n, m, p = fresh_int("n", 1), fresh_int("m", 1), fresh_int("p", 1)
    a = fresh_arr("a", [n, m, p], nan=True)
    s = fresh_int("s")
    for ax in (0, 1, 2):
        b = pixel_shift(a, s, axis=ax)
        r = skolem(c, [n, m, p])
        q = list(r)
        q[ax] = (r[ax] - s.e) % (n, m, p)[ax].e
        c.prove("axis %d: the pixel a shift back, wrapping around" % ax, And_(same_shape(b, [n, m, p]), same(b.get(r), a.get(tuple(q)))))
    b = pixel_shift(a, to_real(s), axis=1)
    c.prove("a whole number given as a float", same(b.get(r), pixel_shift(a, s, axis=1).get(r)))
    req_unchanged(c, "pixel_shift", a)


def scf(c, kind="i", un=u.pix):
    from turbustat.statistics.scf import scf as mod
    nz, n, m, nl = fresh_int("nz", 1), fresh_int("n", 3), fresh_int("m", 3), fresh_int("nl", 1)
    a = fresh_arr("a", [nz, n, m], nan=True)
    o = mod.SCF.__new__(mod.SCF)
    o._data = a
    o._header = stubs.header(spec=True)
    L = fresh_arr("lag", [nl], kind=kind)
    o._roll_lags = SQuantity(L, un)
    o.size = nl
    return mod, o, a, L, nz, n, m, nl


def ratio(d, t):
    """one minus the root of the mean over positions of the summed squared
    difference over the summed squares"""
    v = np_.nansum((d - t) ** 2, axis=0) / (np_.nansum(d ** 2, axis=0) + np_.nansum(t ** 2, axis=0))
    return lift(1. - np_.sqrt(np_.nansum(v) / np_.sum(np_.isfinite(v))))


def shifted(c, mod, a, sx, sy):
    """the cube moved by sx along the first and sy along the second sky axis: by
    whole pixels when the lag is whole, else by the sub-pixel shift"""
    t = a
    for s, ax in ((sx, 1), (sy, 2)):
        if c.branch(to_real(s).v != 0):
            if s.kind == "i" if hasattr(s, "kind") else isinstance(s, SInt):
                t = mod.pixel_shift(t, s, axis=ax)
            elif c.branch(z3.IsInt(s.v)):
                t = mod.pixel_shift(t, s, axis=ax)
            else:
                t = fshift(t, s, axis=ax)
    return t


def surface(c, kind, un, boundary="continuous"):
    mod, o, a, L, nz, n, m, nl = scf(c, kind, un)
    with patched(mod, fourier_shift=fshift):
        k, e = outcome(o.compute_surface, boundary=boundary, show_progress=False)
    if k == "exc":
        c.prove("computed without an error", False)
        return
    Z = o.scf_surface
    c.prove("one value per pair of lags", same_shape(Z, [nl, nl]))
    i, j = c.index("i", 0, nl.e), c.index("j", 0, nl.e)
    pix = arr(o._to_pixel(o._roll_lags).value)
    return mod, o, a, pix, Z, i, j, (nz, n, m)


@S.contract(P + "SCF.compute_surface (periodic, whole pixels)", budget_s=200)
def continuous(c):
    r = surface(c, "i", u.pix)
    if r is None:
        return
    mod, o, a, pix, Z, i, j, _ = r
    sx, sy = pix.get((j,)), pix.get((i,))
    t = shifted(c, mod, a, sx, sy)
    c.prove("row and column are the lags along the two sky axes, the value is the normalised difference",
            same(Z.get((i, j)), ratio(a, t)))
    z = lift(Z.get((i, j)))
    c.prove("never above one", Or_(z.nan, And_(z.inf, z.v <= 0), And_(Not_(z.inf), z.v <= 1)))
    req_unchanged(c, "compute_surface", a)


def _fractional(un, nm):
    @S.contract(P + "SCF.compute_surface (periodic, any lags, %s)" % nm, name="fractional_" + nm, budget_s=200)
    def f(c):
        r = surface(c, "f", un)
        if r is None:
            return
        mod, o, a, pix, Z, i, j, _ = r
        t = shifted(c, mod, a, pix.get((j,)), pix.get((i,)))
        c.prove("row and column are the lags along the two sky axes, the value is the normalised difference",
                same(Z.get((i, j)), ratio(a, t)))
        req_unchanged(c, "compute_surface", a)


_fractional(u.pix, "pixel")
_fractional(u.arcmin, "angular")


@S.contract(P + "SCF.compute_surface (zero lag)")
def zero_lag(c):
    mod, o, a, L, nz, n, m, nl = scf(c, "f")
    with patched(mod, fourier_shift=fshift):
        k, e = outcome(o.compute_surface, boundary="continuous", show_progress=False)
    if k == "exc":
        c.prove("computed without an error", False)
        return
    i = c.index("i", 0, nl.e)
    c.assume(L.get((i,)).v == 0)
    z = lift(o.scf_surface.get((i, i)))
    c.prove("one, or not-a-number when there is no signal at all", Or_(z.nan, And_(Not_(z.inf), z.v == 1)))


@S.contract(P + "SCF.compute_surface (refusal)")
def refusal(c):
    mod, o, a, L, nz, n, m, nl = scf(c, "f")
    k, e = outcome(o.compute_surface, boundary="periodic", show_progress=False)
    c.prove("an unknown boundary is refused", k == "exc" and isinstance(e, ValueError) and "boundary" in str(e))


@S.contract(P + "SCF.compute_spectrum")
def spectrum(c):
    mod, o, a, L, nz, n, m, nl = scf(c, "f")
    c.assume(nl.e >= 2)
    Z = fresh_arr("Z", [nl, nl])
    o._scf_surface = Z
    nb = fresh_int("nb", 1)
    lg, sp, sd = (fresh_arr(q, [nb], nan=True) for q in ("lg", "sp", "sd"))
    seen = []

    def pspec(s, *args, **kw):
        seen.append((s, args, kw))
        return lg, sp, sd
    with patched(mod, pspec=pspec):
        o.compute_spectrum()
    if len(seen) != 1:
        raise Unsupported("pspec is not used")
    r = skolem(c, [nl, nl])
    c.prove("profile of the whole surface", And_(same_shape(seen[0][0], [nl, nl]), same(arr(seen[0][0]).get(r), Z.get(r))))
    q = skolem(c, [nb])
    d = L.get((1,)).v - L.get((0,)).v
    step = SReal(z3.If(d >= 0, d, -d))
    got = o.lags
    c.prove("lags are multiples of the lag step, in the unit of the lags",
            And_(got.unit == u.pix, same(arr(got.value).get(q), lg.get(q) * step)))
    c.prove("spectrum and its spread in the order of the lags",
            And_(same(arr(o.scf_spectrum).get(q), sp.get(q)), same(arr(o.scf_spectrum_stddev).get(q), sd.get(q))))


def cutout(c, s, n):
    """the part of an axis of n pixels whose partner a lag s back lies in the map, and that of the partner"""
    if c.branch(s.e < 0):
        return slice(None, n + s), slice(-s, None)
    return slice(s, None), slice(None, n - s)


@S.contract(P + "SCF.compute_surface (cut, whole pixels)", budget_s=200)
def cut(c):
    from turbustat.statistics.scf import scf as mod
    nz, n, m = fresh_int("nz", 1), fresh_int("n", 3), fresh_int("m", 3)
    a = fresh_arr("a", [nz, n, m], nan=True)
    o = mod.SCF.__new__(mod.SCF)
    o._data, o._header = a, stubs.header(spec=True)
    L = fresh_arr("lag", [1], kind="i")
    o._roll_lags, o.size = SQuantity(L, u.pix), 1
    s = L.get((0,))
    for d in (n, m):
        c.assume(And_(s.e < d.e, s.e > -d.e))
    with patched(mod, fourier_shift=fshift):
        k, e = outcome(o.compute_surface, boundary="cut", show_progress=False)
    if k == "exc":
        c.prove("computed without an error", False)
        return
    z = lift(o.scf_surface.get((0, 0)))
    (xd, xt), (yd, yt) = cutout(c, s, n), cutout(c, s, m)
    t = shifted(c, mod, a, s, s)
    ok = same(z, ratio(a[:, xd, yd], a[:, xt, yt]))
    known = same(z, ratio(a[:, xd, yd], t[:, xt, yt]))      # SCF-cut-double-lag in known_findings.json
    c.prove("only pairs inside the map, or the pairing of the recorded finding", Or_(ok, known))
    req_unchanged(c, "compute_surface", a)
