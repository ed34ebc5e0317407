"""Cramer statistic."""
from ..harness import *
from .. import nps, stubs, core
from ..values import SQuantity, SArr, SReal, SInt, arrid, zi, zi_
from .C07 import patched, fin
import numpy as np

S = Suite("C24")
M = "turbustat/statistics/cramer/cramer.py: "
T = "turbustat/statistics/threeD_to_twoD.py: "
np_ = nps.np_shim


def pairwise(X, Y=None, metric="euclidean", n_jobs=None, **kw):
    """sklearn's pairwise_distances by its contract: the Euclidean distances of
    all pairs of rows, whatever the number of jobs"""
    if metric != "euclidean" or kw:
        raise Unsupported("another metric or option")
    X = arr(X)
    Y = X if Y is None else arr(Y)
    f, g = X.snap(), Y.snap()
    k = X._shape[1]

    def fn(idx):
        i, j = idx
        d = SArr.new([k], lambda q: to_real(lift(f((i, q[0])))) - to_real(lift(g((j, q[0])))), "f")
        return lift(np_.sqrt(np_.sum(d ** 2)))
    return SArr.new([X._shape[0], Y._shape[0]], fn, "f")


def stat(a, b, n_jobs=1):
    from turbustat.statistics.cramer import cramer as mod
    o = mod.Cramer_Distance.__new__(mod.Cramer_Distance)
    o._data_matrix1, o._data_matrix2 = a, b
    with patched(mod, pairwise_distances=pairwise):
        o.cramer_statistic(n_jobs=n_jobs)
    return lift(o.distance)


def ref(a, b):
    m, n = to_real(a.shape[0]), to_real(b.shape[0])
    D = lambda x, y: np_.sum(np_.sqrt(pairwise(x, y)))
    return lift(m * n / (m + n) * (D(a, b) / (m * n) - D(a, a) / (2 * m ** 2) - D(b, b) / (2 * n ** 2)))


@S.contract(M + "Cramer_Distance.cramer_statistic")
def formula(c):
    m, n, k = fresh_int("m", 1), fresh_int("n", 1), fresh_int("k", 1)
    a, b = fresh_arr("a", [m, k]), fresh_arr("b", [n, k])
    v = stat(a, b, fresh_int("jobs", 1))
    c.prove("normalised energy distance with the root-distance kernel", same(v, ref(a, b)))
    req_unchanged(c, "cramer_statistic", a, b)


@S.contract(M + "Cramer_Distance.cramer_statistic")
def symmetric(c):
    m, n, k = fresh_int("m", 1), fresh_int("n", 1), fresh_int("k", 1)
    a, b = fresh_arr("a", [m, k]), fresh_arr("b", [n, k])
    c.prove("swapping the two sets", same(stat(a, b), stat(b, a)))


@S.contract(M + "Cramer_Distance.cramer_statistic")
def identical(c):
    m, k = fresh_int("m", 1), fresh_int("k", 1)
    a = fresh_arr("a", [m, k])
    v = stat(a, a)
    c.prove("zero for the same set twice", And_(fin(v), v.v == 0))


@S.contract(M + "Cramer_Distance.cramer_statistic")
def jobs(c):
    m, n, k = fresh_int("m", 1), fresh_int("n", 1), fresh_int("k", 1)
    a, b = fresh_arr("a", [m, k]), fresh_arr("b", [n, k])
    c.prove("the number of processes has no influence", same(stat(a, b, 1), stat(a, b, fresh_int("jobs", 2))))


def sel(x, i, lim):
    """the usable values of channel i, brightest first"""
    ch = x[i]
    ch = ch[np_.isfinite(ch)]
    return np_.sort(ch[ch > lim])[::-1]


@S.contract(T + "intensity_data")
def brightest(c):
    from turbustat.statistics import threeD_to_twoD as mod
    k, a, b = fresh_int("k", 1), fresh_int("a", 1), fresh_int("b", 1)
    x = fresh_arr("cube", [k, a, b], nan=True)
    lim = fresh_real("limit")
    p = fresh_real("p", gt=0)
    top = to_real(lift(np_.nanmax(x)))
    c.assume(And_(fin(top), top.v != 0))
    n = round(p * a * b)
    got = arr(mod.intensity_data(x, p=p, noise_lim=lim))
    req_unchanged(c, "intensity_data", x)
    c.prove("one row per channel, the asked share of positions long", same_shape(got, (k, n)))
    i, j = skolem(c, [k, n], "e")
    s = sel(x, SInt(i), lim)
    m = s.shape[0]
    v = to_real(lift(got.get((i, j))))
    if c.branch(zi_(j) < zi_(zi(m))):
        c.prove("the brightest usable values in order, over the maximum", same(v, to_real(lift(s.get((j,)))) / top))
    else:
        c.prove("filled with zeros", And_(fin(v), v.v == 0))


def wiring(c, normalize):
    from turbustat.statistics import threeD_to_twoD as two
    from turbustat.statistics.cramer import cramer as mod
    k1, k2, n = fresh_int("k1", 1), fresh_int("k2", 1), fresh_int("n", 1)
    a, b = fresh_arr("a", [k1, n], ge=0), fresh_arr("b", [k2, n], ge=0)
    x, y = fresh_arr("x", [k1, 4, 5], nan=True), fresh_arr("y", [k2, 4, 5], nan=True)
    l1, l2, p = fresh_real("l1"), fresh_real("l2"), fresh_real("p", gt=0)
    calls = []

    def intensity(cube, p=0.2, noise_lim=-np.inf, norm=True):
        calls.append((cube, p, noise_lim))
        return (a if cube is x else b).copy()
    o = mod.Cramer_Distance.__new__(mod.Cramer_Distance)
    o.cube1, o.cube2, o.noise_value1, o.noise_value2 = x, y, l1, l2
    na, nb = fresh_real("norm1", gt=0), fresh_real("norm2", gt=0)

    def norm(m, ord=None, **k):
        if ord != 2 or k:
            raise Unsupported("another norm")
        r = skolem(c, [n], "w")
        d = m._shape[0]
        if c.decide(zi_(d) == k1.e) is True:
            w, v = a, na
        elif c.decide(zi_(d) == k2.e) is True:
            w, v = b, nb
        else:
            raise Unsupported("norm of something else")
        i = skolem(c, [d], "v")
        if c.decide(zb(same(lift(m.get((i[0], r[0]))), w.get((i[0], r[0]))))) is not True:
            raise Unsupported("norm of something else")
        return v
    c.assume(k1.e < k2.e)
    c.np_hooks = {"linalg.norm": norm}
    kw = {} if normalize is None else dict(normalize=normalize)
    with patched(two, intensity_data=intensity):
        o.format_data(data_format="intensity", p=p, **kw)
    if len(calls) != 2:
        raise Unsupported("other calls")
    for cube, lim in ((x, l1), (y, l2)):
        q = [t for t in calls if t[0] is cube]
        if len(q) != 1:
            raise Unsupported("other calls")
        c.prove("noise limit and share of each cube", And_(same(lift(q[0][1]), p), same(lift(q[0][2]), lim)))
    for w, g, m, v in ((a, o.data_matrix1, k1, na), (b, o.data_matrix2, k2, nb)):
        r = skolem(c, [m, n], "r")
        want = to_real(w.get(r)) if normalize is False else to_real(w.get(r)) / v
        c.prove("samples of each cube" + ("" if normalize is False else ", scaled to unit norm"), same(to_real(lift(arr(g).get(r))), want))
    req_unchanged(c, "format_data", x, y)


for tag, nz in (("plain", False), ("normalised", True), ("default", None)):
    S.contract(M + "Cramer_Distance.format_data, _format_data", name="samples_" + tag)(lambda c, nz=nz: wiring(c, nz))
