"""Distance metrics: formula, sign, symmetry, zero on equal statistics."""
import importlib
from types import SimpleNamespace as NS
import numpy as np
import astropy.units as u
from ..harness import *
from .. import nps, speccode

S = Suite("C08")
P = "turbustat/statistics/"
np_ = nps.np_shim


def sl(nm):
    return fresh_real(nm, nan=True), fresh_real(nm + "err", lo=0, nan=True)


def nonneg(v):
    return Or_(v.nan, v.v >= 0)


def tspec(c, s1, e1, s2, e2):
    q = e1 * e1 + e2 * e2
    d = s1 - s2
    return np_.abs(d) / np_.sqrt(q)


def slope_metric(c, cls, a1, a2, get, run="distance_metric"):
    s1, e1 = sl("s1")
    s2, e2 = sl("s2")
    c.assume(Or_(e1.nan, e2.nan, e1.v + e2.v > 0))
    out = []
    for (x, ex), (y, ey) in (((s1, e1), (s2, e2)), ((s2, e2), (s1, e1))):
        o = cls.__new__(cls)
        setattr(o, a1, NS(slope=x, slope_err=ex, tail_slope=x, tail_slope_err=ex))
        setattr(o, a2, NS(slope=y, slope_err=ey, tail_slope=y, tail_slope_err=ey))
        o._common_lags = False
        getattr(o, run)()
        out.append(lift(get(o)))
    d, r = out
    c.prove("slope difference over the quadrature sum of the errors", same(d, tspec(c, s1, e1, s2, e2)))
    c.prove("not negative", nonneg(d))
    c.prove("symmetric", same(d, r))
    c.prove("zero for equal slopes", z3.Implies(And_(Not_(s1.nan), same(s1, s2), Not_(e1.nan), Not_(e2.nan)),
                                                And_(Not_(d.nan), d.v == 0)))


def slopes(mod, cls, a1, a2, get=lambda o: o.distance, run="distance_metric", tgt=None):
    @S.contract(P + mod.replace(".", "/") + ".py: %s.%s" % (cls, run), name="slope_" + cls)
    def f(c):
        import importlib
        m = importlib.import_module("turbustat.statistics." + mod)
        slope_metric(c, getattr(m, cls), a1, a2, get, run)


slopes("pspec_bispec.pspec", "PSpec_Distance", "pspec1", "pspec2")
slopes("vca_vcs.vca", "VCA_Distance", "vca1", "vca2")
slopes("mvc.mvc", "MVC_Distance", "mvc1", "mvc2")
slopes("wavelets.wavelet_transform", "Wavelet_Distance", "wt1", "wt2")
slopes("delta_variance.delta_variance", "DeltaVariance_Distance", "delvar1", "delvar2", lambda o: o.slope_distance)
slopes("dendrograms.dendro_stats", "Dendrogram_Distance", "dendro1", "dendro2", lambda o: o.num_distance,
       "numfeature_stat")


@S.contract(P + "vca_vcs/vcs.py: VCS_Distance.distance_metric")
def vcs(c):
    from turbustat.statistics.vca_vcs.vcs import VCS_Distance
    two = [bool(c.branch(z3.Bool("two%d" % k))) for k in (1, 2)]
    st = []
    for k in (0, 1):
        n = 2 if two[k] else 1
        st.append(NS(slope=fresh_arr("s%d" % k, [n]), slope_err=fresh_arr("e%d" % k, [n], gt=0),
                     brk=fresh_real("b%d" % k), brk_err=fresh_real("be%d" % k, gt=0)))
    r = []
    for a, b in ((0, 1), (1, 0)):
        o = VCS_Distance.__new__(VCS_Distance)
        o.vcs1, o.vcs2 = st[a], st[b]
        o.distance_metric()
        r.append(o)
    L = [tspec(c, st[0].slope.get((z3.IntVal(i),)), st[0].slope_err.get((z3.IntVal(i),)),
               st[1].slope.get((z3.IntVal(i),)), st[1].slope_err.get((z3.IntVal(i),))) for i in range(2 if all(two) else 1)]
    o = r[0]
    c.prove("large-scale distance", same(lift(o.large_scale_distance), L[0]))
    if all(two):
        c.prove("small-scale distance", same(lift(o.small_scale_distance), L[1]))
        c.prove("break distance", same(lift(o.break_distance), tspec(c, st[0].brk, st[0].brk_err, st[1].brk, st[1].brk_err)))
        c.prove("distance is the sum", same(lift(o.distance), L[0] + L[1]))
    else:
        c.prove("no second slope: not-a-number", And_(lift(o.small_scale_distance).nan, lift(o.break_distance).nan))
        c.prove("distance is the large-scale one", same(lift(o.distance), L[0]))
    c.prove("not negative", nonneg(lift(o.distance)))
    c.prove("symmetric", same(lift(o.distance), lift(r[1].distance)))


def scaled(c, name, d, w, s):
    """d is w sqrt(s / 2), the rounding of an irrational factor left open"""
    s = lift(s)
    c.prove(name + ": known where the sum is", And_(Not_(s.inf), d.nan == s.nan, Not_(d.inf)))
    q = lift(np_.sqrt(s))
    h = lift(np_.sqrt(s / 2))
    t = w.v * w.v * s.v
    hyps = [s.v >= 0, q.v * q.v == s.v, q.v >= 0, h.v * h.v == s.v / 2, h.v >= 0, w.v > 0]
    eps = z3.Q(1, 10 ** 9)
    c.prove_nra(name, hyps, And_(d.v >= 0, 2 * d.v * d.v <= t * (1 + eps), 2 * d.v * d.v >= t * (1 - eps)))


@S.contract(P + "stats_utils.py: hellinger")
def hellinger(c):
    from turbustat.statistics.stats_utils import hellinger
    n = fresh_int("n", 1)
    a, b = fresh_arr("a", [n], nan=True, ge=0), fresh_arr("b", [n], nan=True, ge=0)
    w = fresh_real("bw", gt=0)
    d, r = hellinger(a, b, bin_width=w), hellinger(b, a, bin_width=w)
    x = np_.sqrt(a) - np_.sqrt(b)
    scaled(c, "scaled Euclidean distance of the square roots", lift(d), w, np_.nansum(x * x))
    c.prove("not negative", nonneg(lift(d)))
    c.prove("symmetric", same(lift(d), lift(r)))
    z = hellinger(a, a, bin_width=w)
    c.prove("zero for equal histograms", And_(Not_(lift(z).nan), lift(z).v == 0))
    req_unchanged(c, "hellinger", a, b)


@S.contract(P + "pdf/compare_pdf.py: PDF_Distance.compute_hellinger_distance")
def pdf_hellinger(c):
    from turbustat.statistics.pdf.compare_pdf import PDF_Distance
    n = fresh_int("n", 1)
    a, b = fresh_arr("a", [n], gt=0), fresh_arr("b", [n], gt=0)
    r = []
    for x, y in ((a, b), (b, a), (a, a)):
        o = PDF_Distance.__new__(PDF_Distance)
        o.PDF1, o.PDF2 = NS(pdf=x), NS(pdf=y)
        o.compute_hellinger_distance()
        r.append(lift(o.hellinger_distance))
    x = np_.sqrt(a / np_.sum(a)) - np_.sqrt(b / np_.sum(b))
    scaled(c, "Hellinger distance of the normalised PDFs", r[0], lift(1.0), np_.nansum(x * x))
    c.prove("not negative", nonneg(r[0]))
    c.prove("symmetric", same(r[0], r[1]))
    c.prove("zero for equal PDFs", And_(Not_(r[2].nan), r[2].v == 0))


@S.contract(P + "pdf/compare_pdf.py: PDF_Distance.compute_lognormal_distance")
def pdf_lognormal(c):
    from turbustat.statistics.pdf.compare_pdf import PDF_Distance
    n = fresh_int("n", 1)
    p = [NS(model_params=fresh_arr("p%d" % k, [n]), model_stderrs=fresh_arr("e%d" % k, [n], gt=0)) for k in (1, 2)]
    r = []
    for x, y in ((0, 1), (1, 0)):
        o = PDF_Distance.__new__(PDF_Distance)
        o.PDF1, o.PDF2 = p[x], p[y]
        o.compute_lognormal_distance()
        r.append(lift(o.lognormal_distance))
    z = (z3.IntVal(0),)
    c.prove("width difference over the quadrature sum of the errors",
            same(r[0], tspec(c, p[0].model_params.get(z), p[0].model_stderrs.get(z),
                             p[1].model_params.get(z), p[1].model_stderrs.get(z))))
    c.prove("not negative", nonneg(r[0]))
    c.prove("symmetric", same(r[0], r[1]))


def scf_contract(weighted):
    @S.contract(P + "scf/scf.py: SCF_Distance.distance_metric", name="scf_%s" % ("weighted" if weighted else "plain"))
    def f(c):
        from turbustat.statistics.scf.scf import SCF_Distance
        n = fresh_int("n", 1)
        a, b = fresh_arr("a", [n, n]), fresh_arr("b", [n, n])
        r = []
        for x, y in ((a, b), (b, a), (a, a)):
            o = SCF_Distance.__new__(SCF_Distance)
            o.scf1, o.scf2, o.size = NS(scf_surface=x), NS(scf_surface=y), n
            o.distance_metric(weighted=weighted)
            r.append(lift(o.distance))
        i, j = np_.arange(n) - n // 2, np_.arange(n) - n // 2
        X, Y = np_.meshgrid(i, j)
        w = np_.ones((n, n))
        if weighted:
            w = 1 / np_.sqrt(X * X + Y * Y)
            w[(X == 0) & (Y == 0)] = 1.
        d = a - b
        c.prove("root of the weighted mean squared difference",
                same(r[0], lift(np_.sqrt(np_.sum(w * (d * d)) / np_.sum(w)))))
        c.prove("not negative", nonneg(r[0]))
        c.prove("symmetric", same(r[0], r[1]))
        c.prove("zero for equal surfaces", Or_(r[2].nan, r[2].v == 0))
        req_unchanged(c, "distance", a, b)


scf_contract(True)
scf_contract(False)


def pca_contract(ms):
    @S.contract(P + "pca/pca.py: PCA_Distance.distance_metric", name="pca_%s" % ("centred" if ms else "plain"))
    def f(c):
        from turbustat.statistics.pca.pca import PCA_Distance
        n, m, k = fresh_int("n", 2), fresh_int("m", 2), fresh_int("k", 2)
        c.assume(k.e <= n.e)
        c.assume(k.e <= m.e)
        a, b = fresh_arr("a", [n], gt=0), fresh_arr("b", [m], gt=0)
        r = []
        for x, y in ((a, b), (b, a), (a, a)):
            o = PCA_Distance.__new__(PCA_Distance)
            o.pca1, o.pca2, o._n_eigs, o._mean_sub = NS(eigvals=x), NS(eigvals=y), k, ms
            o.distance_metric()
            r.append(lift(o.distance))
        x, y = a[(0 if ms else 1):k], b[(0 if ms else 1):k]
        d = x / np_.sum(x) - y / np_.sum(y)
        c.prove("Euclidean distance of the normalised eigenvalues", same(r[0], lift(np_.linalg.norm(d))))
        c.prove("not negative", nonneg(r[0]))
        c.prove("symmetric", same(r[0], r[1]))
        c.prove("zero for equal eigenvalues", And_(Not_(r[2].nan), r[2].v == 0))
        req_unchanged(c, "distance", a, b)


pca_contract(True)
pca_contract(False)


@S.contract(P + "pspec_bispec/bispec.py: Bispectrum_Distance.distance_metric")
def bispec(c):
    from turbustat.statistics.pspec_bispec.bispec import Bispectrum_Distance
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    a, b = fresh_arr("a", [n, n], nan=True), fresh_arr("b", [m, m], nan=True)
    r = []
    for x, y in ((a, b), (b, a), (a, a)):
        o = Bispectrum_Distance.__new__(Bispectrum_Distance)
        o.bispec1, o.bispec2 = NS(bicoherence=x), NS(bicoherence=y)
        o.distance_metric()
        r.append((lift(o.surface_distance), lift(o.mean_distance)))
    c.prove("mean distance", same(r[0][1], lift(np_.abs(np_.mean(a) - np_.mean(b)))))
    if c.branch(n.e == m.e):
        d = a - b
        c.prove("surface distance", same(r[0][0], lift(np_.linalg.norm(d))))
    else:
        c.prove("different shapes give not-a-number", r[0][0].nan)
    for k, nm in ((0, "surface"), (1, "mean")):
        c.prove(nm + " not negative", nonneg(r[0][k]))
        c.prove(nm + " symmetric", same(r[0][k], r[1][k]))
        c.prove(nm + " zero for equal bicoherence", Or_(r[2][k].nan, r[2][k].v == 0))
    req_unchanged(c, "distance", a, b)


@S.contract(P + "delta_variance/delta_variance.py: DeltaVariance_Distance.distance_metric")
def delvar_curve(c):
    from turbustat.statistics.delta_variance.delta_variance import DeltaVariance_Distance
    n = fresh_int("n", 1)
    lo, hi = fresh_real("lo", gt=0), fresh_real("hi", gt=0)
    lo2, hi2 = fresh_real("lo2", gt=0), fresh_real("hi2", gt=0)
    lags = fresh_arr("lags", [n], gt=0)
    mk = lambda nm: fresh_arr(nm, [n], nan=True)
    a, b = mk("a"), mk("b")
    q = lambda x: V.SQuantity(x, u_pix)
    import astropy.units as u
    u_pix = u.pix
    common = bool(c.branch(z3.Bool("common")))

    def ns(x, l, h, s):
        return NS(delta_var=x, lags=q(lags), fit_range=(q(l), q(h)), slope=s, slope_err=SReal(rv(1)))
    s1, s2 = fresh_real("s1"), fresh_real("s2")
    r = []
    for X in ((a, lo, hi, s1, b, lo2, hi2, s2), (b, lo2, hi2, s2, a, lo, hi, s1), (a, lo, hi, s1, a, lo, hi, s1)):
        o = DeltaVariance_Distance.__new__(DeltaVariance_Distance)
        o.delvar1, o.delvar2, o._common_lags = ns(*X[:4]), ns(*X[4:]), common
        o.distance_metric()
        r.append(lift(o.curve_distance))
    if common and c.branch(And_(lo.v == lo2.v, hi.v == hi2.v)):
        ok = (lags >= lo) & (lags <= hi) & (a > 0) & (b > 0)
        x, y = a[ok], b[ok]
        d = np_.log10(x / np_.sum(x)) - np_.log10(y / np_.sum(y))
        c.prove("root-sum-square difference of the normalised curves in the range", same(r[0], lift(np_.linalg.norm(d))))
        c.prove("symmetric", same(r[0], r[1]))
    else:
        c.prove("not comparable gives not-a-number", And_(r[0].nan, r[1].nan))
    if common:
        c.prove("zero for equal curves", Or_(r[2].nan, r[2].v == 0))
    c.prove("not negative", nonneg(r[0]))
    req_unchanged(c, "distance", a, b)


@S.contract(P + "genus/genus.py: Genus_Distance.distance_metric")
def genus(c):
    from turbustat.statistics.genus.genus import Genus_Distance
    n, m = fresh_int("n", 4), fresh_int("m", 4)
    A, B = fresh_int("A", 1), fresh_int("B", 1)
    t1, t2 = fresh_arr("t1", [n]), fresh_arr("t2", [m])
    g1, g2 = fresh_arr("g1", [1, n]), fresh_arr("g2", [1, m])
    ns1 = NS(thresholds=t1, genus_stats=g1, data=NS(size=A))
    ns2 = NS(thresholds=t2, genus_stats=g2, data=NS(size=B))
    r = []
    for x, y in ((ns1, ns2), (ns2, ns1), (ns1, ns1)):
        o = Genus_Distance.__new__(Genus_Distance)
        o.genus1, o.genus2, o.scale = x, y, 1
        o.distance_metric()
        r.append(lift(o.distance))
    c.prove("not negative", nonneg(r[0]))
    c.prove("symmetric for equal pixel sizes", same(r[0], r[1]))
    c.prove("zero for equal curves", Or_(r[2].nan, r[2].v == 0))


ROWS = speccode.load("""
def rows(x, y, dist):
    out = np.empty((x.shape[0],))
    for k in range(x.shape[0]):
        out[k] = dist(x[k], y[k])
    return np.mean(out)
""")["rows"]


@S.contract(P + "dendrograms/dendro_stats.py: hellinger_stat")
def hellinger_stat(c):
    from turbustat.statistics.dendrograms.dendro_stats import hellinger_stat
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    a, b = fresh_arr("a", [n, m], nan=True, ge=0), fresh_arr("b", [n, m], nan=True, ge=0)
    r = [lift(hellinger_stat(x, y)) for x, y in ((a, b), (b, a), (a, a))]
    from turbustat.statistics.stats_utils import hellinger
    ref = ROWS(a, b, hellinger)
    c.prove("mean of the row distances", same(r[0], lift(ref)))
    c.prove("not negative", nonneg(r[0]))
    c.prove("symmetric", same(r[0], r[1]))
    c.prove("zero for equal histograms", And_(Not_(r[2].nan), r[2].v == 0))


# every dataset is measured with the options given for it --------------------------------------------
class Rec:
    """a statistic by its interface: what it is made from and asked to do is kept"""
    made = []

    def __init__(self, *a, **k):
        self.log = [("made", a, k)]
        Rec.made.append(self)

    def __getattr__(self, name):
        if name == "_slope":
            raise AttributeError(name)
        if name == "data":
            return self.__dict__["log"][0][1][0]
        if name not in ("run", "compute_surface", "compute_spectrum", "compute_spatial_distrib"):
            raise Unsupported("%s of a statistic" % name)

        def call(*a, **k):
            self.log.append((name, a, k))
            return self
        return call


def alike(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(alike(a[n], b[n]) for n in a)
    if isinstance(a, (int, float, str)):
        return a == b
    if isinstance(a, (np.ndarray, u.Quantity)):
        return a.shape == b.shape and bool(np.all(a == b))
    if isinstance(a, V.SArr):
        raise Unsupported("a new array is handed over")
    return False


SAME = {}


def routed(mod, cls, stat, data, each, shared={}, pair=None, only=()):
    """each: the names under which the options of the two datasets are given"""
    @S.contract(P + mod.replace(".", "/") + ".py: %s.__init__" % cls, name="own_options_" + cls)
    def f(c):
        m = importlib.import_module("turbustat.statistics." + mod)
        D = getattr(m, cls)
        d = [data(c, i) for i in (1, 2)]
        # options are handed on, whatever they are
        opts = [{n: v(c, i) for n, v in each.items()} for i in (1, 2)]

        def build(i, j, full=True):
            kw = dict(shared)
            for n in each:
                p, q = (n if isinstance(n, tuple) else (n, None))
                if q is None:
                    kw[p] = [opts[i][n], opts[j][n]]
                else:
                    kw[p] = opts[i][n]
                    if full or n not in only:
                        kw[q] = opts[j][n]
            Rec.made = []
            stands = {stat: Rec}
            for n, g in (("input_data", lambda x, **k: x), ("common_scale", lambda a, b: 1.0), ("WCS", lambda h: h), ("standardize", lambda x: x),
                         ("common_histogram_bins", lambda a, b, **k: ("bins", "centres"))):
                if hasattr(m, n):
                    stands[n] = g
            old = {n: getattr(m, n) for n in stands if hasattr(m, n)}
            if stat not in old:
                raise Unsupported("%s is not there" % stat)
            try:
                for n, g in stands.items():
                    setattr(m, n, g)
                k, e = outcome(D, d[i], d[j], **kw)
            finally:
                for n, g in old.items():
                    setattr(m, n, g)
            c.prove("compared without an error", k == "ok")
            if k != "ok":
                return None
            if len(Rec.made) != 2:
                raise Unsupported("%d statistics" % len(Rec.made))
            return [r.log for r in Rec.made]
        a, b = build(0, 1), build(1, 0)
        if a is None or b is None:
            return
        c.prove("the first dataset is measured alike in either place", alike(a[0], b[1]))
        c.prove("the second dataset is measured alike in either place", alike(a[1], b[0]))
        kinds = [n for n in each if isinstance(n, tuple) and n in only]
        if kinds:
            s = build(0, 0, full=False)
            if s is not None:
                c.prove("options given once hold for both", alike(s[0], s[1]))


def tok(name):
    return lambda c, i: ("token", name, i)


def opt(name):
    return lambda c, i: {name: ("token", name, i)}


def imdata(c, i):
    if ("im", i) not in c.__dict__.setdefault("c08", {}):
        c.c08["im", i] = (fresh_arr("img%d" % i, [fresh_int("ny%d" % i, 8), fresh_int("nx%d" % i, 8)]), ("header", i))
    return c.c08["im", i]


def mvcdata(c, i):
    return {n: (("token", n, i), ("header", i)) for n in ("centroid", "moment0", "linewidth")}


def freqs(v):
    return lambda c, i: (v * i) / u.pix


routed("pspec_bispec.pspec", "PSpec_Distance", "PowerSpectrum", tok("data"),
       {("weights1", "weights2"): tok("w"), ("pspec_kwargs", "pspec2_kwargs"): opt("apodize_kernel"), "breaks": freqs(.1), "low_cut": freqs(.01), "high_cut": freqs(.2)},
       only=[("pspec_kwargs", "pspec2_kwargs")])
routed("mvc.mvc", "MVC_Distance", "MVC", mvcdata,
       {("pspec_kwargs", "pspec2_kwargs"): opt("bin_options"), "breaks": freqs(.1), "low_cut": freqs(.01), "high_cut": freqs(.2)},
       only=[("pspec_kwargs", "pspec2_kwargs")])
routed("vca_vcs.vca", "VCA_Distance", "VCA", tok("data"),
       {("radial_pspec_kwargs", "radial_pspec_kwargs2"): opt("bin_options"), "breaks": freqs(.1), "low_cut": freqs(.01), "high_cut": freqs(.2)},
       only=[("radial_pspec_kwargs", "radial_pspec_kwargs2")])
routed("vca_vcs.vcs", "VCS_Distance", "VCS", tok("data"),
       {("fit_kwargs", "fit_kwargs2"): opt("low_cut"), "breaks": freqs(.1)}, only=[("fit_kwargs", "fit_kwargs2")])
routed("wavelets.wavelet_transform", "Wavelet_Distance", "Wavelet", tok("data"),
       {("fit_kwargs", "fit_kwargs2"): opt("brk"), "xlow": lambda c, i: 2. * i * u.pix, "xhigh": lambda c, i: 9. * i * u.pix},
       only=[("fit_kwargs", "fit_kwargs2")])
routed("delta_variance.delta_variance", "DeltaVariance_Distance", "DeltaVariance", imdata,
       {("weights1", "weights2"): tok("w"), ("delvar_kwargs", "delvar2_kwargs"): opt("boundary")},
       shared=dict(lags=np.array([3., 4.]) * u.pix), only=[("delvar_kwargs", "delvar2_kwargs")])
routed("scf.scf", "SCF_Distance", "SCF", imdata, {"boundary": lambda c, i: ["cut", "continuous"][i - 1]}, shared=dict(size=5, show_progress=False))
routed("genus.genus", "Genus_Distance", "Genus", imdata,
       {"min_value": tok("low"), "max_value": tok("high"), "lowdens_percent": tok("pl"), "highdens_percent": tok("ph"), ("genus_kwargs", "genus2_kwargs"): opt("min_size")},
       only=[("genus_kwargs", "genus2_kwargs")])
routed("stat_moments.highstatmoments", "StatMoments_Distance", "StatMoments", imdata,
       {("weights1", "weights2"): tok("w"), ("periodic1", "periodic2"): lambda c, i: i == 1}, shared=dict(nbins=10))
routed("pdf.compare_pdf", "PDF_Distance", "PDF", tok("data"), {("weights1", "weights2"): tok("w"), ("min_val1", "min_val2"): tok("least")}, shared=dict(do_fit=False))
