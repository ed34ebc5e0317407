"""Genus curves."""
from types import SimpleNamespace as NS
from ..harness import *
from .. import nps, stubs, core
from ..values import SQuantity, SArr, SReal, SInt, SBool, zi_
from . import C23
from .C07 import patched, fin
from .C19 import tried
import astropy.units as u
import numpy as np
import z3

S = Suite("C18")
T = "turbustat/statistics/genus/genus.py: "
np_ = nps.np_shim
NR = 2


class Struct:
    def __init__(self, nd, conn):
        self.nd, self.conn = nd, conn


class Regions:
    """scipy.ndimage: the number of regions is a function of the mask and the connectivity"""

    @staticmethod
    def generate_binary_structure(nd, conn):
        return Struct(nd, conn)

    @staticmethod
    def count(mask, conn):
        mask = arr(mask)
        f = mask.snap()
        c = core.CUR
        return SInt(c.functional("regions%d" % conn, mask._shape, lambda i: zb(to_bool(lift(f(i))).c), sort=z3.IntSort()))

    @staticmethod
    def label(mask, structure=None, **kw):
        conn = 1 if structure is None else structure.conn
        return None, Regions.count(mask, conn)


def small(mask, size, conn):
    """regions of at least size pixels of the mask: a function of the mask"""
    mask = arr(mask)
    f = mask.snap()
    c = core.CUR
    a = c.functional("maskid", mask._shape, lambda i: zb(to_bool(lift(f(i))).c), sort=z3.IntSort())
    keep = z3.Function("kept%d" % conn, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    return SArr.new(mask._shape, lambda i: SBool(keep(a, zi_(to_int(lift(size)).e), zi_(i[0]), zi_(i[1]))), "b")


def curve(smooth, how, conn=2):
    @S.contract(T + "Genus.make_genus_curve", name="curve_%s_%s_%d" % ("smooth" if smooth else "plain", how, conn))
    def f(c):
        from turbustat.statistics.genus import genus as mod
        h, w = fresh_int("h", 2), fresh_int("w", 2)
        x = fresh_arr("x", [h, w], nan=True)
        o = mod.Genus.__new__(mod.Genus)
        o._data = x
        o._enable_smoothing = smooth
        radii = [fresh_real("r%d" % k, gt=0) for k in range(NR)]
        o._smoothing_radii = list(radii) if smooth else [None]
        NT = fresh_int("nt", 1)
        tha = fresh_arr("t", [NT])
        o._thresholds = tha
        imgs = [fresh_arr("s%d" % k, [h, w], nan=True) for k in range(NR)] if smooth else [x]
        seen = []

        def kern(width, **kw):
            return ("kernel", width, kw)

        def conv(a, k, **kw):
            seen.append((a, k, kw))
            for t, r in enumerate(radii):
                if k[1] is r:
                    return imgs[t].copy()
            raise V.Unsupported("kernel")
        kw, size = {}, None
        if how == "all":
            kw = dict(enable_small_removal=False)
        elif how == "pixels":
            size = fresh_int("size", 1)
            kw = dict(min_size=size)
        elif how == "area":
            o._header = stubs.header("hdr", spec=False, square=True)
            a = fresh_real("area", gt=0)
            q = SQuantity(a, u.deg ** 2)
            kw = dict(min_size=q)
            size = SInt(z3.ToInt(to_real(lift(o._to_pixel_area(q).value)).v))
        elif how == "beam":
            o._header = stubs.header("hdr", spec=False, square=True)
            a, b = fresh_real("bmaj", gt=0), fresh_real("bmin", gt=0)
            kw = dict(use_beam=True)
            pa = o._to_pixel(SQuantity(a, u.deg)).value
            pb = o._to_pixel(SQuantity(b, u.deg)).value
            size = SInt(z3.ToInt(to_real(lift(2 * np.pi * pa * pb / (8 * np.log(2)))).v))
        if conn != 2:
            kw["connectivity"] = conn
        beam = (lambda hd: (SQuantity(a, u.deg), SQuantity(b, u.deg), SQuantity(lift(0.), u.deg))) if how == "beam" else None
        pt = dict(nd=Regions, convolve_fft=conv, Gaussian2DKernel=kern,
                  remove_small_objects=lambda m, min_size=None, connectivity=2: small(m, min_size, connectivity))
        if beam:
            pt["find_beam_properties"] = beam
        with patched(mod, **pt):
            o.make_genus_curve(keep_smoothed_images=True, **kw)
        G = arr(o.genus_stats)
        c.prove("one curve per radius, one value per threshold", same_shape(G, [len(imgs), NT]))
        i, j = skolem(c, [h, w])
        tq, = skolem(c, [NT])
        if smooth:
            c.prove("each smoothing starts from the map", And_(len(seen) == NR, *[
                same(lift(arr(s[0]).get((i, j))), lift(x.get((i, j)))) for s in seen]))
        for k, im in enumerate(imgs):
            for t in (tq,):
                tv = lift(tha.get((t,)))
                hi, lo = im > tv, im < tv
                if size is not None:
                    hi, lo = small(hi, size, conn), small(lo, size, conn)
                want = Regions.count(hi, conn) - Regions.count(lo, conn)
                c.prove("radius %d, every threshold: regions above minus regions below" % k, same(
                    to_real(lift(G.get((k, t)))), to_real(want)))
            c.prove("radius %d: image kept" % k, same(lift(arr(o.smoothed_images[k]).get((i, j))), lift(im.get((i, j)))))
            c.prove("radius %d: mean and spread" % k, And_(
                same(lift(arr(o.smoothed_means).get((k,))), lift(np_.nanmean(im))),
                same(lift(arr(o.smoothed_stds).get((k,))), lift(np_.nanstd(im)))))
        req_unchanged(c, "curve", x, tha)
    return f


for s_ in (True, False):
    for h_ in ("all", "pixels"):
        for c_ in (1, 2):
            curve(s_, h_, c_)
curve(True, "area")
curve(True, "beam")


@S.contract(T + "remove_small_objects", name="small_regions")
def f(c):
    from turbustat.statistics.genus import genus as mod
    h, w, n = fresh_int("h", 1), fresh_int("w", 1), fresh_int("n", 0)
    m = fresh_arr("m", [h, w], kind="b")
    L = fresh_arr("L", [h, w], kind="i")
    sz = fresh_arr("sz", [n])
    name = L.get((0, 0)).e.decl().name()
    mf = m.snap()
    c.decl_facts[name] = lambda app: [app >= 0, app <= n.e, (app > 0) == zb(to_bool(lift(mf(tuple(app.children()[-2:])))).c)]
    conn = []

    class ND(Regions):
        @staticmethod
        def label(a, structure=None):
            conn.append((a, structure))
            return L.copy(), n

        @staticmethod
        def sum(a, labels=None, index=None):
            return sz.copy()
    size = fresh_int("size", 1)
    with patched(mod, nd=ND):
        r = arr(mod.remove_small_objects(m, size, connectivity=2))
    i, j = skolem(c, [h, w])
    c.prove("regions of the given mask and connectivity", And_(len(conn) == 1, conn[0][1].conn == 2))
    c.prove("shape", same_shape(r, [h, w]))
    l = to_int(lift(L.get((i, j)))).e
    c.prove("exactly the regions of at least the minimum size stay", zb(to_bool(lift(r.get((i, j)))).c) == zb(And_(
        zb(to_bool(lift(m.get((i, j)))).c), to_real(lift(sz.get((zi_(l - 1),)))).v >= z3.ToReal(size.e))))
    req_unchanged(c, "small regions", m)


def limits(lo, hi, units=False):
    @S.contract(T + "Genus.__init__", name="thresholds_%s_%s%s" % (lo, hi, "_units" if units else ""))
    def f(c):
        from turbustat.statistics.genus import genus as mod
        h, w, n = fresh_int("h", 3), fresh_int("w", 3), fresh_int("n", 2)
        x = fresh_arr("x", [h, w], nan=True)
        p = [c.index("p", 0, d.e) for d in (h, w)]
        c.assume(Not_(x.get(tuple(p)).nan))
        a, b = fresh_real("a"), fresh_real("b")
        pl, ph = fresh_real("pl", gt=0), fresh_real("ph", gt=0)
        c.assume(And_(pl.v < ph.v, ph.v < 100))
        if units:
            data = SQuantity(x, u.K)
            qa, qb = SQuantity(a, u.mK), SQuantity(b, u.mK)
            va, vb = a / 1000., b / 1000.
        else:
            data, qa, qb, va, vb = x, a, b, a, b
        kw = dict(numpts=n, enable_smoothing=False)
        if lo in ("value", "both"):
            kw["min_value"] = qa
        if lo in ("percent", "both"):
            kw["lowdens_percent"] = pl
        if hi in ("value", "both"):
            kw["max_value"] = qb
        if hi in ("percent", "both"):
            kw["highdens_percent"] = ph
        with patched(mod, input_data=lambda d, no_header=False: (d if no_header else (d, None))):
            o = build(mod, data, **kw)
        want = {"none": lambda: np_.nanmin(x), "value": lambda: va, "percent": lambda: np_.nanpercentile(x, pl),
                "both": lambda: V.s_max(to_real(lift(va)), to_real(lift(np_.nanpercentile(x, pl))))}[lo]()
        top = {"none": lambda: np_.nanmax(x), "value": lambda: vb, "percent": lambda: np_.nanpercentile(x, ph),
               "both": lambda: V.s_min(to_real(lift(vb)), to_real(lift(np_.nanpercentile(x, ph))))}[hi]()
        t = o.thresholds
        if units:
            c.prove("thresholds carry the unit of the map", isinstance(t, SQuantity) and t.unit == u.K)
            t = t.value
        t = arr(t)
        c.prove("as many thresholds as asked", same_shape(t, [n]))
        i, = skolem(c, [n])
        want, top = to_real(lift(want)), to_real(lift(top))
        c.prove("evenly spaced over the range", same(lift(t.get((i,))), want + (top - want) * SReal(z3.ToReal(zi_(i)) / z3.ToReal(n.e - 1))))
        req_unchanged(c, "thresholds", x)
    return f


def build(mod, data, **kw):
    o = mod.Genus.__new__(mod.Genus)
    o.__init__(data, **kw)
    return o


for lo_ in ("none", "value", "percent", "both"):
    limits(lo_, "none")
    if lo_ != "none":
        limits("none", lo_)
limits("value", "percent", True)
limits("percent", "value", True)
limits("none", "both", True)


@S.contract(T + "Genus.__init__", name="units_of_limits")
def f(c):
    from turbustat.statistics.genus import genus as mod
    h, w = fresh_int("h", 3), fresh_int("w", 3)
    x = fresh_arr("x", [h, w])
    a = fresh_real("a")
    data = SQuantity(x, u.K)
    with patched(mod, input_data=lambda d, no_header=False: (d if no_header else (d, None))):
        for name, kw in (("min_value", dict(min_value=a)), ("max_value", dict(max_value=a)), ("thresholds", dict(thresholds=arr([a, a])))):
            ok, e = tried(build, mod, data, numpts=4, enable_smoothing=False, **kw)
            c.prove(name + " without a unit is refused", (not ok) and isinstance(e, TypeError))
            kw = {k: SQuantity(v, u.s) for k, v in kw.items()}
            ok, e = tried(build, mod, data, numpts=4, enable_smoothing=False, **kw)
            c.prove(name + " in another unit is refused", (not ok) and isinstance(e, u.UnitsError))
        t = fresh_arr("t", [h])
        i, = skolem(c, [h])
        o = build(mod, data, thresholds=SQuantity(t, u.mK), enable_smoothing=False)
        c.prove("given thresholds are used in the unit of the map", And_(
            o.thresholds.unit == u.K, same(lift(arr(o.thresholds.value).get((i,))), lift(t.get((i,))) / 1000.)))
        o = build(mod, x, thresholds=t, enable_smoothing=False)
        c.prove("given thresholds are used as they are", same(lift(arr(o.thresholds).get((i,))), lift(t.get((i,)))))


# which smoothing radii are refused: the setter's contract (also under C23)
S.contracts += [t for t in C23.S.contracts if t.name == "smoothing"]
