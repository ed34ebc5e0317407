"""Histograms, PDFs and normalisations."""
from types import SimpleNamespace as NS
from ..harness import *
from .. import nps, stubs

S = Suite("C11")
U = "turbustat/statistics/stats_utils.py: "
D = "turbustat/statistics/pdf/compare_pdf.py: "
np_ = nps.np_shim


def data(c, nd=2, spread=False, std=False, rng=False):
    dims = [fresh_int("n%d" % i, 1) for i in range(nd)]
    x = fresh_arr("x", dims, nan=True)
    # some value is there
    w = [c.index("wit", 0, d.e) for d in dims]
    c.assume(Not_(x.get(tuple(w)).nan))
    c.lemma("there are valid values", np_.sum(np_.isfinite(x)).e > 0)
    if spread:
        w2 = [c.index("wit2", 0, d.e) for d in dims]
        c.assume(And_(Not_(x.get(tuple(w2)).nan), x.get(tuple(w2)).v > x.get(tuple(w)).v))
        if std:
            c.lemma("the values differ", np_.nanvar(x).v > 0)
        if rng:
            c.lemma("the range is positive", np_.nanmax(x).v > np_.nanmin(x).v)
    return dims, x


def fin(v):
    return And_(Not_(v.nan), Not_(v.inf))


def norm_contract(fn, spec):
    for nd in (1, 2, 3):
        @S.contract(U + "%s, data_normalization" % fn, name="%s_%dd" % (fn, nd))
        def f(c, nd=nd):
            from turbustat.statistics import stats_utils as su
            dims, x = data(c, nd, True, fn == 'standardize', fn == 'normalize')
            y = getattr(su, fn)(x)
            c.prove("shape", same_shape(y, dims))
            i = skolem(c, x)
            r = spec(x, i)
            c.prove("value", same(y.get(i), r))
            if fn != "normalize_by_mean":
                c.prove("missing stays missing, valid stays valid", zb(y.get(i).nan) == zb(x.get(i).nan))
            z = su.data_normalization(x, norm_type=fn)
            c.prove("by name", same(z.get(i), r))
            if fn == "normalize":
                v = y.get(i)
                c.prove("range 0 to 1", Or_(v.nan, And_(v.v >= 0, v.v <= 1)))
                mn, mx = lift(np_.nanmin(y)), lift(np_.nanmax(y))
                c.prove("minimum is 0", And_(fin(mn), mn.v == 0))
                c.prove("maximum is 1", And_(fin(mx), mx.v == 1))
            if fn in ("center", "standardize"):
                m = lift(np_.nanmean(y))
                c.lemma("zero mean", And_(fin(m), m.v == 0))
                if fn == "standardize" and nd == 2:
                    v = lift(np_.nanvar(y))
                    c.prove("unit spread", And_(fin(v), v.v == 1), timeout_ms=25000)
            req_unchanged(c, fn, x)


norm_contract("standardize", lambda x, i: (x.get(i) - np_.nanmean(x)) / np_.nanstd(x))
norm_contract("center", lambda x, i: x.get(i) - np_.nanmean(x))
norm_contract("normalize", lambda x, i: (x.get(i) - np_.nanmin(x)) / (np_.nanmax(x) - np_.nanmin(x)))
norm_contract("normalize_by_mean", lambda x, i: x.get(i) / np_.nanmean(x))


@S.contract(U + "data_normalization")
def unknown_name(c):
    from turbustat.statistics.stats_utils import data_normalization
    dims, x = data(c, 2)
    for n in ("Standardize", "none", "", None, "z-score", 1):
        k, e = outcome(data_normalization, x, norm_type=n)
        c.prove("%r is refused" % (n,), k == "exc" and isinstance(e, ValueError))


def bins_contract(name, mn=False, mx=False, nb=True, cen=False):
    @S.contract(U + "common_histogram_bins", name=name)
    def f(c):
        from turbustat.statistics.stats_utils import common_histogram_bins
        n, m = fresh_int("n", 1), fresh_int("m", 1)
        a, b = fresh_arr("a", [n], nan=True), fresh_arr("b", [m], nan=True)
        i, j = c.index("wa", 0, n.e), c.index("wb", 0, m.e)
        c.assume(And_(Not_(a.get((i,)).nan), Not_(b.get((j,)).nan)))
        kw = {}
        lo = V.s_min(lift(np_.nanmin(a)), lift(np_.nanmin(b)))
        hi = V.s_max(lift(np_.nanmax(a)), lift(np_.nanmax(b)))
        if mn:
            kw["min_val"] = fresh_real("mn")
            lo = V.s_max(lo, kw["min_val"])
        if mx:
            kw["max_val"] = fresh_real("mx")
            hi = V.s_min(hi, kw["max_val"])
        if nb:
            kw["nbins"] = k = fresh_int("nbins", 2)
        else:
            k = V.s_floor(np_.sqrt((to_real(n) + to_real(m)) / 2))
            k = V.trunc_int(k)
        c.assume((lo < hi).c)
        r = common_histogram_bins(a, b, return_centered=cen, **kw)
        if cen:
            r, ce = r
            c.prove("one centre per bin", same_shape(ce, [k - 1]))
            if c.branch((k > 1).c):
                q = c.index("q", 0, zi_(k.e) - 1)
                c.prove("centres are the midpoints", same(ce.get((q,)), (r.get((q,)) + r.get((q + 1,))) / 2))
        c.prove("number of edges", same_shape(r, [k]))
        if c.branch((k > 1).c):
            c.prove("first edge", same(r.get((z3.IntVal(0),)), lo))
            c.prove("last edge", same(r.get((k.e - 1,)), hi))
            q = c.index("q2", 0, zi_(k.e) - 1)
            c.prove("increasing", And_(fin(r.get((q,))), r.get((q,)).v < r.get((q + 1,)).v))
        else:
            # fewer than two edges span nothing; only asked for by tiny data sets
            pass
        req_unchanged(c, "common bins", a, b)


bins_contract("bins_default", nb=False)
bins_contract("bins_number")
bins_contract("bins_centred", cen=True)
bins_contract("bins_clipped_low", mn=True)
bins_contract("bins_clipped_high", mx=True)
bins_contract("bins_clipped", mn=True, mx=True, cen=True)


@S.contract(U + "common_histogram_bins")
def bins_dims(c):
    from turbustat.statistics.stats_utils import common_histogram_bins
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    a, b = fresh_arr("a", [n]), fresh_arr("b", [n, m])
    for x, y in ((a, b), (b, a), (b, b)):
        k, e = outcome(common_histogram_bins, x, y)
        c.prove("two-dimensional data are refused", k == "exc" and isinstance(e, ValueError))


def kept(c, name, d, dims, sel, val):
    """d holds val exactly where sel"""
    if not isinstance(d, SSel):
        c.prove(name + ": a selection of the image", False)
        return
    i = skolem(c, dims)
    c.prove(name + ": same box", len(d.bdims) == len(dims))
    c.prove(name + ": exactly the valid values above the threshold", zb(to_bool(d.mask(i)).c) == zb(sel(i)))
    c.prove(name + ": values kept", z3.Implies(zb(sel(i)), zb(same(d.fn(i), val(i)))))


@S.contract(D + "PDF.__init__")
def pdf_data(c):
    from turbustat.statistics.pdf.compare_pdf import PDF
    dims = [fresh_int("n", 1), fresh_int("m", 1)]
    x = fresh_arr("x", dims, nan=True, inf=True)
    lim = fresh_real("lim")
    p = PDF(x, min_val=lim)
    ok = lambda i: And_(fin(x.get(i)), x.get(i).v > lim.v)
    kept(c, "threshold", p.data, dims, ok, x.get)
    c.prove("no normalisation", p.normalization_type == "None")
    p = PDF(x)
    kept(c, "no threshold", p.data, dims, lambda i: fin(x.get(i)), x.get)
    w = fresh_arr("w", dims, nan=True, inf=True)
    p = PDF(x, min_val=lim, weights=w)
    kept(c, "weighted", p.data, dims, lambda i: And_(ok(i), fin(w.get(i))), lambda i: x.get(i) * w.get(i))
    req_unchanged(c, "PDF", x, w)


@S.contract(D + "PDF.__init__ (normalised)")
def pdf_normalised(c):
    from turbustat.statistics.pdf.compare_pdf import PDF
    from turbustat.statistics import stats_utils as su
    dims = [fresh_int("n", 1), fresh_int("m", 1)]
    x = fresh_arr("x", dims, nan=True)
    lim = fresh_real("lim")
    w = skolem(c, dims, "wit")
    c.assume(And_(Not_(x.get(w).nan), x.get(w).v > lim.v))
    c.lemma("some value is kept", np_.sum(np_.isfinite(x) & (x > lim)).e > 0)
    sel = x[np_.isfinite(x) & (x > lim)]
    for nm in ("standardize", "center", "normalize", "normalize_by_mean"):
        p = PDF(x, min_val=lim, normalization_type=nm)
        i = skolem(c, dims)
        r = getattr(su, nm)(sel)
        c.prove(nm + ": values", z3.Implies(And_(Not_(x.get(i).nan), x.get(i).v > lim.v), zb(same(p.data.fn(i), r.fn(i)))))
        c.prove(nm + ": selection", zb(to_bool(p.data.mask(i)).c) == And_(Not_(x.get(i).nan), x.get(i).v > lim.v))
    req_unchanged(c, "PDF", x)


def mk_pdf(c):
    from turbustat.statistics.pdf.compare_pdf import PDF
    n = fresh_int("n", 2)          # a single value is squeezed to a scalar
    p = PDF.__new__(PDF)
    p.data = fresh_arr("d", [n])
    p._bins = p._pdf = p._ecdf = p._input_bins = None
    return p, n


def pdf_bins(kind):
    @S.contract(D + "PDF.make_pdf, make_ecdf, find_percentile", name="pdf_%s" % kind, budget_s=100)
    def f(c):
        p, n = mk_pdf(c)
        x = p.data
        kw = {}
        if kind == "edges":
            e0 = fresh_arr("e", [fresh_int("k", 2)])
            kw["bins"] = e0
        elif kind == "number":
            kw["bins"] = fresh_int("nb", 1)
        p.make_pdf(**kw)
        if kind == "default":
            k = V.s_rint(np_.sqrt(to_real(n)))
            k = V.trunc_int(k)
            h, e = np_.histogram(x, bins=k, density=True)
        else:
            h, e = np_.histogram(x, bins=kw["bins"], density=True)
        ne = e._shape[0]
        c.prove("one value per bin", same_shape(p.pdf, [zi_(ne) - 1]))
        c.prove("one centre per bin", same_shape(p.bins, [zi_(ne) - 1]))
        i = c.index("i", 0, zi_(ne) - 1)
        c.prove("density of the bin", same(p.pdf.get((i,)), h.get((i,))))
        c.prove("centre is the midpoint", same(p.bins.get((i,)), (e.get((i,)) + e.get((i + 1,))) / 2))
        c.prove("density is not negative", Or_(Not_(fin(p.pdf.get((i,)))), p.pdf.get((i,)).v >= 0,
                                               e.get((i,)).v >= e.get((i + 1,)).v))
        p.make_ecdf()
        F = stubs.ECDFStub(x)
        v = p.ecdf.get((i,))
        c.prove("cumulative distribution at the centre", same(v, F(p.bins.get((i,)))))
        c.prove("between 0 and 1", And_(fin(v), v.v >= 0, v.v <= 1))
        j = c.index("j", 0, zi_(ne) - 1)
        w = p.ecdf.get((j,))
        c.prove("non-decreasing", z3.Implies((p.bins.get((i,)) <= p.bins.get((j,))).c, v.v <= w.v))
        t = fresh_real("t")
        c.prove("percentile of a value", same(lift(p.find_percentile(t)), F(t) * 100))
        req_unchanged(c, "PDF", x)


for kd in ("default", "number", "edges"):
    pdf_bins(kd)


MAPS = ("mean", "variance", "skewness", "kurtosis")


def moment_hist(which, kind):
    @S.contract("turbustat/statistics/stat_moments/highstatmoments.py: StatMoments.make_spatial_histograms", name="moments_%s_%s" % (which, kind))
    def f(c):
        from turbustat.statistics import StatMoments
        o = StatMoments.__new__(StatMoments)
        dims = [fresh_int("n", 1), fresh_int("m", 1)]
        a = {w: fresh_arr(w, dims, nan=True) for w in MAPS}
        w = skolem(c, dims, "wit")
        for k in MAPS:
            setattr(o, "_%s_array" % k, a[k])
            c.assume(Not_(a[k].get(w).nan))
            c.lemma("some pixel of %s is finite" % k, np_.sum(np_.logical_not(np_.isnan(a[k]))).e > 0)
        o.nbins = fresh_int("nbins", 1)
        b = {k: fresh_arr(k + "_edges", [fresh_int("k_" + k, 2)]) for k in MAPS} if kind == "edges" else {}
        o.make_spatial_histograms(**{k + "_bins": v for k, v in b.items()})
        x = a[which]
        h, e = np_.histogram(x[np_.logical_not(np_.isnan(x))], b.get(which, o.nbins), density=True)
        cen, den = getattr(o, which + "_hist")
        ne = e._shape[0]
        c.prove("one value and one centre per bin", And_(same_shape(den, [zi_(ne) - 1]), same_shape(cen, [zi_(ne) - 1])))
        i = c.index("i", 0, zi_(ne) - 1)
        c.prove("density of the finite pixels in the bin", same(den.get((i,)), h.get((i,))))
        c.prove("centre is the midpoint", same(cen.get((i,)), (e.get((i,)) + e.get((i + 1,))) / 2))
        req_unchanged(c, "make_spatial_histograms", *a.values(), *b.values())


for kd in MAPS:
    for how in ("number", "edges"):
        moment_hist(kd, how)


@S.contract(D + "PDF.find_at_percentile")
def percentiles(c):
    p, n = mk_pdf(c)
    q = fresh_real("q")
    k, r = outcome(p.find_at_percentile, q)
    bad = Or_(q.v < 0, q.v > 100)
    if k == "exc":
        c.prove("refused exactly outside 0-100", And_(bad, isinstance(r, ValueError)))
    else:
        c.prove("accepted exactly inside 0-100", Not_(bad))
        c.prove("the percentile of the kept data", same(lift(r), lift(np_.percentile(p.data, q))))
