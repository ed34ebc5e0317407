"""Radial profiles."""
from ..harness import *
from .. import nps, stubs
from ..values import SQuantity, SSel
import astropy.units as u
import numpy as np

S = Suite("C05")
P = "turbustat/statistics/psds.py: "
np_ = nps.np_shim


def fin(v):
    return And_(Not_(v.nan), Not_(v.inf))


def img(c, small=2):
    n, m = fresh_int("n", small), fresh_int("m", small)
    return n, m, fresh_arr("p", [n, m], nan=True, inf=True)


def centre(n, i):
    """signed offset of index i from the middle pixel n // 2"""
    return zi_(i) - zi_(n.e) / 2


@S.contract(P + "make_radial_arrays")
def pixel_grid(c):
    from turbustat.statistics.psds import make_radial_arrays
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    yy, xx = make_radial_arrays((n, m))
    c.prove("shapes", And_(same_shape(yy, [n, m]), same_shape(xx, [n, m])))
    i, j = skolem(c, [n, m])
    c.prove("rows measured from the middle pixel", to_int(yy.get((i, j))).e == centre(n, i))
    c.prove("columns measured from the middle pixel", to_int(xx.get((i, j))).e == centre(m, j))
    yc, xc = fresh_int("yc", 0), fresh_int("xc", 0)
    yy, xx = make_radial_arrays((n, m), y_center=yc, x_center=xc)
    c.prove("shapes with a given centre", And_(same_shape(yy, [n, m]), same_shape(xx, [n, m])))
    c.prove("offsets from a given centre", And_(to_int(yy.get((i, j))).e == i - yc.e, to_int(xx.get((i, j))).e == j - xc.e))


@S.contract(P + "make_radial_freq_arrays")
def freq_grid(c):
    from turbustat.statistics.psds import make_radial_freq_arrays
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    yy, xx = make_radial_freq_arrays((n, m))
    c.prove("shapes", And_(same_shape(yy, [n, m]), same_shape(xx, [n, m])))
    i, j = skolem(c, [n, m])
    N, M = z3.ToReal(n.e), z3.ToReal(m.e)
    a, b = to_real(yy.get((i, j))), to_real(xx.get((i, j)))
    c.prove("column frequencies", And_(fin(b), b.v * M == z3.ToReal(centre(m, j))))
    c.prove("row frequencies of the row-reversed power map", And_(fin(a), a.v * N == z3.ToReal(centre(n, n.e - 1 - i))))


def wrap(t):
    """the same angle in [-pi, pi)"""
    two = 2 * np.pi
    return t - to_real(V.s_floor((t + np.pi) / two)) * two


class Grid:
    """stands in for the two grid functions (their contracts: pixel_grid, freq_grid);
    the distance of each pixel, as the definition states it"""

    def __init__(self, c, n, m, freqs):
        from turbustat.statistics import psds
        self.mod, self.seen = psds, set()
        self.g = {k: tuple(fresh_arr(k + a, [n, m]) for a in "yx") for k in ("freq", "pix")}
        yy, xx = self.g["freq" if freqs else "pix"]
        w = [c.index("off", 0, d.e) for d in (n, m)]      # a pixel away from the centre
        for k in self.g:
            c.assume(self.g[k][0].get(tuple(w)).v != 0)
        self.d = np_.sqrt(yy ** 2 + xx ** 2)
        self.pix = np_.sqrt(self.g["pix"][0] ** 2 + self.g["pix"][1] ** 2)
        self.shape = (n, m)
        if freqs:
            c.lemma("that pixel is away from the centre", self.d.get(tuple(w)).v != 0)
            c.lemma("some pixel is away from the centre", to_bool(np_.any(self.d != 0)).c)
        if freqs:
            low = self.d[np_.nonzero(self.d)].min() / 2.
            self.d = np_.where(self.d == 0, low, self.d)

    def __enter__(self):
        def mk(k):
            def f(shape, **kw):
                if kw or len(shape) != 2 or not all(ctx_true(V._eq(zi_(V.as_dim(a)), zi_(V.as_dim(b)))) for a, b in zip(shape, self.shape)):
                    raise Unsupported("grid of another shape")
                self.seen.add(k)
                return tuple(a.copy() for a in self.g[k])
            return f
        m = self.mod
        self.old = m.make_radial_arrays, m.make_radial_freq_arrays
        m.make_radial_arrays, m.make_radial_freq_arrays = mk("pix"), mk("freq")
        return self

    def __exit__(self, *a):
        self.mod.make_radial_arrays, self.mod.make_radial_freq_arrays = self.old
        return False


def ctx_true(e):
    return e is True or (not isinstance(e, bool) and core.ctx().decide(zb(e)))


def binned(d, x, edges, nb, mask=None):
    """per bin: the selected finite pixels"""
    df, xf, ef = d.snap(), x.snap(), edges.snap()

    def member(k, r):
        v, lo, hi = to_real(df(r)), to_real(ef((k,))), to_real(ef((zi_(k) + 1,)))
        p = to_real(xf(r))
        ok = And_(fin(p), lo.v <= v.v, Or_(v.v < hi.v, And_(zi_(k) == zi_(nb) - 1, v.v == hi.v)))
        return And_(ok, mask(r)) if mask is not None else ok
    return lambda k: SSel(x._shape, lambda r: xf(r), lambda r: SBool(member(k, r)), "f")


def profile(name, freqs, log, std=False, lims=(False, False), nb=True, wedge=False):
    @S.contract(P + "pspec", name=name, budget_s=150)
    def f(c):
        from turbustat.statistics.psds import pspec
        n, m, x = img(c)
        kw = dict(return_freqs=freqs, logspacing=log, return_stddev=std)
        g = Grid(c, n, m, freqs)
        if nb:
            k = fresh_int("nbins", 1)
            kw["nbins"] = k
        else:
            k = to_int(lift(V.trunc_int(np_.round(g.pix.max()) + 1)))
        lo = 1. / to_real(lift(V.s_min(n, m))) if freqs else .5
        hi = .5 if freqs else g.d.max()
        if lims[0]:
            lo = kw["min_bin"] = fresh_real("lo", gt=0)
        if lims[1]:
            hi = kw["max_bin"] = fresh_real("hi", gt=0)
        if log:
            edges = np_.logspace(np_.log10(lo), np_.log10(hi), k + 1)
        else:
            edges = np_.linspace(lo, hi, k + 1)
        mask, extra = None, ()
        if wedge:
            t0, dt = fresh_real("theta"), fresh_real("width", gt=0)
            kw["theta_0"], kw["delta_theta"] = SQuantity(t0, u.rad), SQuantity(dt, u.rad)
            lim = [wrap(t0 - .5 * dt), wrap(t0 + .5 * dt)]
            th = np_.arctan2(*g.g["pix"])
            ny, nx = zi_(n.e) / 2, zi_(m.e) / 2

            def inside(i, j):
                v, a, b = to_real(th.get((i, j))).v, lim[0].v, lim[1].v
                return z3.If(a < b, z3.And(v >= a, v <= b), z3.Or(v >= a, v <= b))

            def mask(r):
                i, j = zi_(r[0]), zi_(r[1])
                return z3.Or(inside(i, j), inside(n.e - 1 - i, m.e - 1 - j),
                             z3.And(i >= ny - 1, i <= ny, j >= nx - 1, j <= nx))
        with g:
            out = pspec(x, **kw)
        if wedge:
            i, j = skolem(c, [n, m])
            mk = out[-1]
            out = out[:-1]
            c.prove("wedge shape", same_shape(mk, [n, m]))
            c.prove("wedge about the axis, on both sides of the centre", zb(to_bool(mk.get((i, j))).c) == mask((i, j)))
        if ("freq" if freqs else "pix") not in g.seen:
            raise Unsupported("grids made in another way")
        cen, ps = out[:2]
        c.prove("one value per bin", And_(len(out) == 2 + std, same_shape(cen, [k]), same_shape(ps, [k])))
        q = c.index("q", 0, k.e)
        mid = (edges.get((q,)) + edges.get((q + 1,))) / 2.
        c.prove("bin centres are midpoints of the edges", same(to_real(cen.get((q,))), to_real(mid)))
        sel = binned(g.d, x, edges, k.e, mask)(q)
        if not std:
            c.prove("mean of the pixels of the bin", same(to_real(ps.get((q,))), to_real(nps.r_mean(sel))))
        else:
            cnt = zi_(sel.count())
            v, e = to_real(ps.get((q,))), to_real(out[2].get((q,)))
            c.prove("fewer than two pixels: no value, no error", z3.Implies(cnt <= 1, zb(And_(v.nan, e.nan))))
            c.prove("mean of the pixels of the bin", z3.Implies(cnt > 1, zb(same(v, to_real(nps.r_mean(sel))))))
            sd = to_real(nps.r_std(sel, ddof=1))
            c.prove("error at least the sample standard deviation", z3.Implies(cnt > 1, zb(And_(fin(e), fin(sd), e.v >= sd.v))))
        req_unchanged(c, name, x)


profile("freq_lin", True, False)
profile("freq_log", True, True)
profile("freq_limits", True, False, lims=(True, True))
profile("freq_log_limits", True, True, lims=(True, True))
profile("freq_std", True, False, std=True, lims=(True, True))
profile("pix_lin", False, False)
profile("pix_std", False, True, std=True, lims=(True, True))
profile("pix_auto", False, False, nb=False)


profile("freq_wedge", True, False, lims=(True, True), wedge=True)
profile("pix_wedge", False, True, wedge=True, lims=(True, True))


@S.contract(P + "pspec")
def needs_width(c):
    from turbustat.statistics.psds import pspec
    n, m, x = img(c)
    k, e = outcome(pspec, x, nbins=5, theta_0=.3 * u.rad)
    c.prove("a wedge without a width is refused", k == "exc" and isinstance(e, ValueError))


@S.contract("turbustat/statistics/base_pspec2.py: compute_radial_pspec")
def attached(c):
    """the statistic's profile is the profile of its power map"""
    from turbustat.statistics import base_pspec2 as mod
    n, m = fresh_int("n", 2), fresh_int("m", 2)
    x = fresh_arr("p", [n, m], nan=True)
    o = mod.StatisticBase_PSpec2D.__new__(mod.StatisticBase_PSpec2D)
    o._ps2D = x
    got = []
    k = fresh_int("nb", 1)
    ret = [fresh_arr(q, [k], nan=q != "f") for q in ("f", "v", "e")]

    def ps(*a, **kw):
        got.append((a, kw))
        return tuple(ret)
    old, mod.pspec = mod.pspec, ps
    mb = fresh_real("max_bin", gt=0)
    try:
        o.compute_radial_pspec(logspacing=True, max_bin=mb, min_bin=.1)
    finally:
        mod.pspec = old
    if len(got) != 1:
        raise Unsupported("profile computed in another way")
    a, kw = got[0]
    i, j = skolem(c, [n, m])
    c.prove("power map, rows reversed", And_(same_shape(a[0], [n, m]), same(a[0].get((i, j)), x.get((n.e - 1 - i, j)))))
    c.prove("options passed on", And_(kw.get("logspacing") is True, same(lift(kw.get("max_bin")), mb), kw.get("min_bin") == .1, kw.get("return_stddev") is True))
    q = c.index("q", 0, k.e)
    c.prove("frequencies per pixel", And_(o.freqs.unit == 1 / u.pix, same(o.freqs.value.get((q,)), ret[0].get((q,)))))
    c.prove("values and errors", And_(same(o.ps1D.get((q,)), ret[1].get((q,))), same(o.ps1D_stddev.get((q,)), ret[2].get((q,)))))
