"""Structure increments and their distributions."""
from ..harness import *
from .. import nps, stubs, core
from ..values import SQuantity, SArr, SReal, SBool, zi_
from . import C23
from .C07 import patched, fin
from .C19 import tried
import astropy.units as u
import numpy as np
import z3

S = Suite("C17")
T = "turbustat/statistics/tsallis/tsallis.py: "
np_ = nps.np_shim
NL = 2


def field(x, lag, per):
    """the increment at every pixel, from its definition"""
    h, w = x._shape
    f = x.snap()

    def at(i, j):
        if per:
            return to_real(lift(f((zi_(i) % zi_(h), zi_(j) % zi_(w)))))
        ins = z3.And(zi_(i) >= 0, zi_(i) < zi_(h), zi_(j) >= 0, zi_(j) < zi_(w))
        return to_real(V.s_merge(ins, lift(f((i, j))), lift(0.)))

    def fn(idx):
        i, j = zi_(idx[0]), zi_(idx[1])
        s = at(i - lag, j) + at(i + lag, j) + at(i, j - lag) + at(i, j + lag)
        return s / 4. - to_real(lift(f((i, j))))
    return SArr.new([h, w], fn, "f")


def increments(per, how):
    @S.contract(T + "Tsallis.make_tsallis", name="increments_%s_%s" % ("wrap" if per else "edge", how))
    def f(c):
        from turbustat.statistics.tsallis import tsallis as mod
        h, w = fresh_int("h", 2), fresh_int("w", 2)
        x = fresh_arr("x", [h, w], nan=True)
        o = mod.Tsallis.__new__(mod.Tsallis)
        lags = [fresh_real("lag%d" % k, gt=0) for k in range(NL)]
        pix = fresh_real("pix", gt=0)
        o._data = x
        if how == "pix":
            o._lags = SQuantity(arr(lags), u.pix)
        else:
            o._header = stubs.header("hdr", spec=False)
            o._lags = SQuantity(arr(lags), u.deg)
        pl = o._to_pixel(o._lags).value
        pl = [lift(np_.floor(arr(pl).get((k,)))) for k in range(NL)]
        for p in pl:
            c.assume(And_(p.v >= 1, 2 * p.v <= z3.ToReal(h.e), 2 * p.v <= z3.ToReal(w.e)))
        nb = fresh_int("bins", 1)
        seen = []
        real = nps.histogram

        def hist(a, bins=10, **kw):
            hh, ed = fresh_arr("hist", [nb], kind="i", ge=0), fresh_arr("edges", [nb.e + 1])
            seen.append((a, bins, kw, hh, ed))
            return hh.copy(), ed.copy()
        c.np_hooks = {"histogram": hist}
        std = []

        def standard(a, *r, **kw):      # contract of standardize: C11
            out = fresh_arr("std", [h, w], nan=True)
            std.append((a, out))
            return out.copy()
        with patched(mod, standardize=standard):
            o.make_tsallis(periodic=per, num_bins=nb)
        if len(std) != NL:
            raise V.Unsupported("standardisation elsewhere")
        A, D = arr(o.lag_arrays), arr(o.lag_distribs)
        c.prove("one field and one distribution per lag", And_(
            same_shape(A, [NL, h, w]), same_shape(D, [NL, 2, nb]), len(seen) == NL))
        i, j = skolem(c, [h, w])
        b, = skolem(c, [nb])
        for k in range(NL):
            raw = field(x, z3.ToInt(pl[k].v), per)
            c.prove("lag %d: difference of each pixel and its neighbours" % k, And_(
                same_shape(std[k][0], [h, w]), same(lift(std[k][0].get((i, j))), lift(raw.get((i, j))))))
            c.prove("lag %d: the standardised field is kept" % k, same(lift(A.get((k, i, j))), lift(std[k][1].get((i, j)))))
            a, bins, kw, hh, ed = seen[k]
            e = lift(A.get((k, i, j)))
            c.prove("lag %d: histogram of the valid values of that field" % k, selected(c, a, [h, w], i, j, Not_(e.nan), e))
            c.prove("lag %d: requested number of bins" % k, And_(same(lift(bins), nb), not kw))
            c.prove("lag %d: bin centres" % k, same(lift(D.get((k, 0, b))), (lift(ed.get((b,))) + lift(ed.get((zi_(b) + 1,)))) / 2))
            tot = np_.sum(hh)
            c.prove("lag %d: fraction per bin" % k, same(lift(D.get((k, 1, b))), lift(np_.log10(to_real(lift(hh.get((b,)))) / tot))))
        req_unchanged(c, "increments", x)
    return f


def selected(c, a, dims, i, j, valid, value):
    """the selection a holds exactly the valid entries of a map"""
    if not isinstance(a, V.SSel):
        raise V.Unsupported("selection")
    dims = [zi_(d.e if hasattr(d, "e") else d) for d in dims]
    if len(a.bdims) == 2:
        idx = (i, j)
    elif len(a.bdims) == 1:
        idx = (zi_(i) * zi_(dims[1]) + zi_(j),)
    else:
        raise V.Unsupported("selection")
    m = zb(a.mask_at(idx))
    return And_(*[zi_(p) == zi_(q) for p, q in zip(a.bdims, dims)] if len(a.bdims) == 2 else [],
                m == zb(valid), z3.Implies(m, zb(same(lift(a.fn(idx)), value))))


for per_ in (True, False):
    for how_ in ("pix", "ang"):
        increments(per_, how_)


@S.contract(T + "tsallis_function", name="model")
def f(c):
    from turbustat.statistics.tsallis.tsallis import tsallis_function
    n = fresh_int("n", 1)
    x = fresh_arr("x", [n])
    a, w2, q = fresh_real("a"), fresh_real("w2", gt=0), fresh_real("q", gt=1)
    y = arr(tsallis_function(x, a, w2, q))
    i, = skolem(c, [n])
    xi = to_real(lift(x.get((i,))))
    c.prove("shape", same_shape(y, [n]))
    c.prove("log of the Tsallis distribution", same(lift(y.get((i,))), (np_.log10(1 + (q - 1) * (xi * xi / w2)) + a) * (-1 / (q - 1))))
    req_unchanged(c, "model", x)


def fits(clip):
    @S.contract(T + "Tsallis.fit_tsallis, clip_to_sigma", name="fit_" + clip)
    def f(c):
        from turbustat.statistics.tsallis import tsallis as mod
        nb = fresh_int("nb", 1)
        D = fresh_arr("D", [NL, 2, nb], nan=True, inf=True)
        o = mod.Tsallis.__new__(mod.Tsallis)
        o._lags = SQuantity(arr([fresh_real("lag%d" % k, gt=0) for k in range(NL)]), u.pix)
        o._lag_distribs = D
        s = fresh_real("sigma", gt=0) if clip == "clipped" else None
        seen = []

        def cf(fn, x, y, p0=None, **kw):
            p, cov = fresh_arr("p", [3]), fresh_arr("cov", [3, 3], ge=0)
            seen.append((fn, x, y, p0, p, cov))
            return p.copy(), cov.copy()
        with patched(mod, curve_fit=cf):
            ok, e = tried(o.fit_tsallis, sigma_clip=s)
        if not ok:
            # nothing left to fit (maximum of an empty selection)
            c.prove("only an empty distribution fails", isinstance(e, ValueError))
            return
        c.prove("one fit per lag", len(seen) == NL)
        i, = skolem(c, [nb])
        P, E_, C_ = arr(o.tsallis_params), arr(o.tsallis_stderrs), arr(o.tsallis_chisq)
        c.prove("one row per lag", And_(same_shape(P, [NL, 3]), same_shape(E_, [NL, 3])))
        for k in range(NL):
            fn, x, y, p0, p, cov = seen[k]
            if not (isinstance(x, V.SSel) and isinstance(y, V.SSel)):
                raise V.Unsupported("selection")
            X, Y = lift(D.get((k, 0, i))), lift(D.get((k, 1, i)))
            good = And_(Not_(X.nan), Not_(X.inf), Not_(Y.nan), Not_(Y.inf))
            mx, my = zb(x.mask_at((i,))), zb(y.mask_at((i,)))
            if clip == "clipped":
                # KNOWN FINDING Tsallis-clip-on-heights: the limits act on the
                # log fraction instead of the bin position
                inx = And_(X.v < s.v, X.v > -s.v)
                iny = And_(Y.v < s.v, Y.v > -s.v)
                c.prove("lag %d: only valid bins" % k, z3.Implies(mx, zb(good)))
                c.prove("lag %d: every valid bin within the limits" % k, z3.Implies(zb(And_(good, inx, iny)), mx))
            else:
                c.prove("lag %d: exactly the valid bins" % k, mx == zb(good))
            c.prove("lag %d: each height stays with its bin" % k, And_(mx == my, z3.Implies(mx, zb(And_(
                same(lift(x.fn((i,))), X), same(lift(y.fn((i,))), Y))))))
            a, w2, q = (fresh_real("t%d" % t, gt=1) for t in range(3))
            xx = fresh_arr("xx", [nb])
            got = arr(fn(xx, a, w2, q))
            c.prove("lag %d: the Tsallis model is fitted" % k, same(
                lift(got.get((i,))), lift(arr(mod.tsallis_function(xx, a, w2, q)).get((i,)))))
            for t in range(3):
                c.prove("lag %d: parameter %d" % (k, t), same(lift(P.get((k, t))), lift(p.get((t,)))))
                c.prove("lag %d: error %d" % (k, t), same(lift(E_.get((k, t))), lift(np_.sqrt(cov.get((t, t))))))
            m = mod.tsallis_function(x, *[lift(p.get((t,))) for t in range(3)])
            chi = np_.sum((np_.exp(m) - np_.exp(y)) ** 2 / np_.exp(y))
            c.prove("lag %d: model at its own parameters" % k, same(lift(C_.get((k, 0))), lift(chi)))
        req_unchanged(c, "fit", D)
    return f


fits("clipped")
fits("all")


# which lags are refused: the setter's contracts (also under C23)
S.contracts += [t for t in C23.S.contracts if "Tsallis.lags" in t.target]
