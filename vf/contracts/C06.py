"""Apodizing windows."""
from ..harness import *
from .. import nps

S = Suite("C06")
T = "turbustat/statistics/apodizing_kernels.py: "


def dist(n, m, i, j):
    y = to_real(SInt(i)) - (to_real(n) - 1) / 2
    x = to_real(SInt(j)) - (to_real(m) - 1) / 2
    return nps.np_shim.sqrt(x * x + y * y)


def spec(n, m, alpha, beta, d, c):
    """the split cosine bell as defined: half size h of the shorter axis, inner
    radius beta*h, taper width floor(alpha*h) pixels"""
    s = z3.If(n.e <= m.e, n.e, m.e)
    h = (to_real(SInt(s)) - 1) / 2
    ri = lift(beta) * h
    rt = V.to_real(V.s_floor(lift(alpha) * h))
    bell = SReal(rv(1)) if c.branch((rt == 0).c) else \
        (nps.np_shim.cos(lift(core.PI) * ((d - ri) / rt)) + 1) * 0.5
    inside, outside = (d < ri).c, (d > ri + rt).c
    return V.s_merge(inside, SReal(rv(1)), V.s_merge(outside, SReal(rv(0)), bell)), ri, rt


def window(c, make, alpha, beta):
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    f = make((n, m))
    c.prove("shape", same_shape(f, [n, m]))
    i, j = skolem(c, [n.e, m.e])
    v = f.get((i, j))
    d = dist(n, m, i, j)
    w, ri, rt = spec(n, m, alpha, beta, d, c)
    c.prove("one inside the inner radius", z3.Implies((d < ri).c, same(v, SReal(rv(1)))))
    c.prove("zero beyond the taper", z3.Implies((d > ri + rt).c, same(v, SReal(rv(0)))))
    c.prove("raised cosine in between", same(v, w))
    c.prove("between 0 and 1", And_(Not_(v.nan), v.v >= 0, v.v <= 1))
    c.prove("symmetric under a flip of the rows", same(v, f.get((n.e - 1 - i, j))))
    c.prove("symmetric under a flip of the columns", same(v, f.get((i, m.e - 1 - j))))


def params(c):
    a, b = fresh_real("alpha", lo=0), fresh_real("beta", lo=0)
    return a, b


@S.contract(T + "SplitCosineBellWindow.__call__, _radial_distance")
def split_cosine_bell(c):
    from turbustat.statistics.apodizing_kernels import SplitCosineBellWindow
    a, b = params(c)
    window(c, SplitCosineBellWindow(a, b), a, b)


@S.contract(T + "HanningWindow")
def hanning(c):
    from turbustat.statistics.apodizing_kernels import HanningWindow
    window(c, HanningWindow(), 1.0, 0.0)


@S.contract(T + "TukeyWindow")
def tukey(c):
    from turbustat.statistics.apodizing_kernels import TukeyWindow
    a, _ = params(c)
    c.assume(a.v <= 1)
    window(c, TukeyWindow(a), a, 1 - a)


@S.contract(T + "CosineBellWindow")
def cosine_bell(c):
    from turbustat.statistics.apodizing_kernels import CosineBellWindow
    a, _ = params(c)
    window(c, CosineBellWindow(a), a, 0.0)


@S.contract(T + "_radial_distance")
def radial(c):
    from turbustat.statistics.apodizing_kernels import _radial_distance
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    r = _radial_distance((n, m))
    i, j = skolem(c, [n.e, m.e])
    c.prove("distance from the image centre", same(r.get((i, j)), dist(n, m, i, j)))
    for sh in ((n,), (n, m, n)):
        k, e = outcome(_radial_distance, sh)
        c.prove("%d-D shape refused" % len(sh), k == "exc" and isinstance(e, ValueError))


def _dispatch(kind, nd):
    def fn(c):
        from turbustat.statistics.base_pspec2 import StatisticBase_PSpec2D
        a, b = params(c)
        if kind == "tukey":
            c.assume(a.v <= 1)
        al, be = {"splitcosinebell": (a, b), "hanning": (1.0, 0.0), "tukey": (a, 1 - a), "cosinebell": (a, 0.0)}[kind]

        def make(shape):
            o = StatisticBase_PSpec2D()
            o.data = fresh_arr("data", ([fresh_int("nv", 1)] if nd == 3 else []) + list(shape), nan=True)
            if nd == 0:
                o.data, o.centroid = None, o.data
            r = o.apodizing_kernel(kind, alpha=a, beta=b)
            return r
        window(c, make, al, be)
    fn.__name__ = "kernel_%s_%d" % (kind, nd)
    return fn


for _k in ("splitcosinebell", "hanning", "tukey", "cosinebell"):
    S.contract("turbustat/statistics/base_pspec2.py: StatisticBase_PSpec2D.apodizing_kernel")(_dispatch(_k, 2))
S.contract("turbustat/statistics/base_pspec2.py: StatisticBase_PSpec2D.apodizing_kernel")(_dispatch("tukey", 3))
S.contract("turbustat/statistics/base_pspec2.py: StatisticBase_PSpec2D.apodizing_kernel")(_dispatch("tukey", 0))


@S.contract("turbustat/statistics/base_pspec2.py: StatisticBase_PSpec2D.apodizing_kernel")
def unknown_kernel(c):
    from turbustat.statistics.base_pspec2 import StatisticBase_PSpec2D
    o = StatisticBase_PSpec2D()
    o.data = fresh_arr("data", [fresh_int("n", 1), fresh_int("m", 1)])
    k, e = outcome(o.apodizing_kernel, "tophat")
    c.prove("unknown window refused", k == "exc" and isinstance(e, ValueError))
