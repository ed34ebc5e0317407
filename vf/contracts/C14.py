"""Principal components."""
from ..harness import *
from .. import nps, stubs, core
from ..values import SQuantity, SArr, SReal, SBool, zi_
from .C07 import patched, fin
from .C19 import tried
import numpy as np
import z3

S = Suite("C14")
T = "turbustat/statistics/threeD_to_twoD.py: "
P = "turbustat/statistics/pca/pca.py: "
np_ = nps.np_shim
EPS = float(np.finfo(float).eps)


def cov(ms):
    @S.contract(T + "var_cov_cube", name="covariance_" + ("centred" if ms else "plain"), budget_s=200)
    def f(c):
        from turbustat.statistics.threeD_to_twoD import var_cov_cube
        n, h, w = fresh_int("n", 1), fresh_int("h", 1), fresh_int("w", 1)
        x = fresh_arr("x", [n, h, w], nan=True)
        r = var_cov_cube(x, mean_sub=ms, progress_bar=False)
        c.prove("one row and one column per channel", same_shape(r, [n, n]))
        i, j = skolem(c, [n, n])
        c.prove("symmetric", same(lift(r.get((i, j))), lift(r.get((j, i)))))
        c.assume(zi_(j) < zi_(i))
        a, b = x[lift(i)].ravel(), x[lift(j)].ravel()
        af = np_.where(np_.isnan(a), EPS, a)
        k = 1. if ms else 0.
        if ms:
            b = b - np_.nanmean(b)
            ac = af - np_.nanmean(af)
        else:
            ac = af
        want = np_.nansum(ac * b) / (np_.sum(np_.isfinite(ac * b)) - k)
        c.prove("averaged product of two channels", same(lift(r.get((i, j))), lift(np_.nan_to_num(want))))
        var = np_.nansum(ac * ac) / (np_.sum(np_.isfinite(ac)) - k)
        c.prove("averaged square of a channel", same(lift(r.get((i, i))), lift(np_.nan_to_num(var))))
        req_unchanged(c, "covariance", x)
    return f


cov(False)
cov(True)


def decomposition(ms, how):
    @S.contract(P + "PCA.compute_pca", name="components_%s_%s" % ("centred" if ms else "plain", how))
    def f(c):
        from turbustat.statistics.pca import pca as mod
        n = fresh_int("n", 2)
        data, cov = fresh_arr("x", [n, 3, 3]), fresh_arr("cov", [n, n])
        w, v = fresh_arr("w", [n]), fresh_arr("v", [n, n])
        P_ = fresh_arr("perm", [n], kind="i")
        name = P_.get((0,)).e.decl().name()
        c.decl_facts[name] = lambda app: [app >= 0, app < n.e]
        seen = []

        def eigh(a, **k):
            seen.append(a)
            return w.copy(), v.copy()

        def perm(a, **k):
            a = arr(a)
            c.prove("only the eigenvalues are ordered", And_(same_shape(a, [n]), same(lift(a.get((q,))), lift(w.get((q,))))))
            return P_.copy()
        q, = skolem(c, [n])
        c.np_hooks = {"linalg.eigh": eigh, "argsort": perm, "real_if_close": lambda a, **k: a,
                      "sort": lambda a, **k: arr(a)[perm(a)]}
        o = mod.PCA.__new__(mod.PCA)
        o._data = data
        o.spectral_shape = n
        asked = []

        def vcc(d, mean_sub=None, progress_bar=None):
            asked.append((d, mean_sub))
            return cov
        cnt = fresh_int("count", 1)
        c.assume(cnt.e <= n.e)
        given = fresh_int("given")
        lim = fresh_real("min_eigval")
        crit = []

        def sne(e, m, method="value"):
            crit.append((e, m, method))
            return cnt
        with patched(mod, var_cov_cube=vcc, set_n_eigs=sne):
            kw = {"auto": dict(n_eigs="auto", min_eigval=lim, eigen_cut_method="proportion"), "all": dict(n_eigs=-1),
                  "given": dict(n_eigs=given), "bare": dict(n_eigs="auto")}[how]
            ok, e = tried(o.compute_pca, mean_sub=ms, show_progress=False, **kw)
        if how == "bare":
            c.prove("a criterion needs a threshold", (not ok) and isinstance(e, ValueError))
            return
        if how == "given" and not ok:
            c.prove("only an impossible number of components is refused", And_(
                isinstance(e, (Warning, ValueError)), Or_(given.e < -1, given.e > n.e, given.e == 0)))
            return
        c.prove("covariance of this cube", And_(len(asked) == 1, asked[0][0] is data, asked[0][1] is ms,
                                                len(seen) == 1, same_shape(seen[0], [n, n]),
                                                same(arr(seen[0]).get((q, 0)), cov.get((q, 0)))))
        i, j = skolem(c, [n, n])
        ev, vec = arr(o.eigvals), arr(o.eigvecs)
        c.prove("as many components as channels", And_(same_shape(ev, [n]), same_shape(vec, [n, n])))
        back = zi_(n.e - 1 - zi_(i))
        wit = [to_int(lift(P_.get((back,)))).e, back]
        c.prove("an eigenvector stays with its eigenvalue", Or_(*[And_(
            same(lift(ev.get((i,))), lift(w.get((t,)))), same(lift(vec.get((j, i))), lift(v.get((j, t))))) for t in wit]))
        # order: what eigh (ascending) and argsort promise
        bj = zi_(n.e - 1 - zi_(j))
        c.assume(zi_(i) <= zi_(j))
        for a, b in ((bj, back), (to_int(lift(P_.get((bj,)))).e, to_int(lift(P_.get((back,)))).e)):
            c.assume(to_real(lift(w.get((a,)))).v <= to_real(lift(w.get((b,)))).v)
        c.prove("largest first", to_real(lift(ev.get((i,)))).v >= to_real(lift(ev.get((j,)))).v)
        k = {"auto": cnt, "all": n, "given": given}[how]
        if how == "given":
            k = n if c.branch(given.e == -1) else given
            c.prove("only a possible number of components is used", And_(k.e >= 1, k.e <= n.e))
        c.prove("number of components", same(lift(o.n_eigs), k))
        if how == "auto":
            c.prove("chosen by the criterion from these eigenvalues", And_(
                len(crit) == 1, same(lift(arr(crit[0][0]).get((i,))), lift(ev.get((i,)))), same(lift(crit[0][1]), lim),
                crit[0][2] == "proportion"))
        lo = 0 if ms else 1
        tot = np_.sum(ev[lo:])
        c.prove("total variance", same(lift(o.total_variance), lift(tot)))
        c.prove("proportion of the retained components", same(lift(o.var_proportion), lift(np_.sum(ev[lo:k]) / tot)))
        req_unchanged(c, "decomposition", data, cov)
    return f


for ms_ in (True, False):
    for how_ in ("auto", "all", "given", "bare"):
        decomposition(ms_, how_)


@S.contract(P + "set_n_eigs", name="number_of_components")
def f(c):
    from turbustat.statistics.pca.pca import set_n_eigs
    n = fresh_int("n", 1)
    w = fresh_arr("w", [n], ge=0)
    m = fresh_real("m")
    r = set_n_eigs(w, m, method="value")
    c.prove("as many as reach the threshold", same(lift(r), lift(np_.sum(w >= m))))
    r = set_n_eigs(w, m, method="proportion")
    k = np_.sum(np_.cumsum(w / np_.sum(w)) <= m)
    c.prove("as many as stay within the proportion, at least one", same(
        lift(r), V.s_merge(lift(k).e == 0, lift(1), lift(k))))
    ok, e = tried(set_n_eigs, w, m, method="other")
    c.prove("an unknown criterion is refused", (not ok) and isinstance(e, ValueError))
    req_unchanged(c, "number", w)


def images(ms, k):
    @S.contract(P + "PCA.eigimages", name="eigenimages_%s_%d" % ("centred" if ms else "plain", k))
    def f(c):
        from turbustat.statistics.pca import pca as mod
        n, h, w = fresh_int("n", 3), fresh_int("h", 1), fresh_int("w", 1)
        x, v = fresh_arr("x", [n, h, w], nan=True), fresh_arr("v", [n, n])
        o = mod.PCA.__new__(mod.PCA)
        o._data, o._eigvecs, o._mean_sub, o._n_eigs = x, v, ms, k
        c.np_hooks = {"real_if_close": lambda a, **kk: a}
        i, j = skolem(c, [h, w])
        xf, vf = x.snap(), v.snap()
        mean = np_.nanmean(x.reshape(n, -1), axis=1).snap() if ms else None
        for given in (None, k):
            r = arr(o.eigimages() if given is None else o.eigimages(given))
            c.prove("one map per component", same_shape(r, [h, w] if k == 1 else [k, h, w]))
            for t in range(k):
                def term(z, t=t):
                    a = lift(xf((z[0], i, j)))
                    if ms:
                        a = to_real(a) - to_real(lift(mean((z[0],))))
                    a = to_real(lift(a) * lift(vf((z[0], t))))
                    return V.s_merge(zb(a.nan), lift(0.), SReal(a.v))
                want = np_.sum(SArr.new([n], term, "f"))
                got = r.get((i, j) if k == 1 else (t, i, j))
                c.prove("component %d is the cube weighted by its eigenvector" % t, same(lift(got), lift(want)))
        req_unchanged(c, "eigenimages", x, v)
    return f


for ms_ in (True, False):
    for k_ in (1, 2, 3):
        images(ms_, k_)


@S.contract(P + "PCA.noise_ACF", name="noise_autocorrelation")
def f(c):
    from turbustat.statistics.pca import pca as mod
    n, h, w = fresh_int("n", 1), fresh_int("h", 1), fresh_int("w", 1)
    a3, a2 = fresh_arr("a3", [n, h, w]), fresh_arr("a2", [h, w])
    o = mod.PCA.__new__(mod.PCA)
    o._n_eigs = kk = fresh_int("k", 1)
    i, j = skolem(c, [h, w])
    for name, acs, want in (("several", a3, np_.mean(a3, axis=0)), ("one", a2, a2)):
        asked = []

        def images(n_eigs=None, acs=acs):
            asked.append(n_eigs)
            return acs
        o.autocorr_images = images
        m = fresh_int("m")
        r = arr(o.noise_ACF(m))
        c.prove(name + ": asks for the given components", And_(len(asked) == 1, same(lift(asked[0]), m)))
        c.prove(name + ": one map", same_shape(r, [h, w]))
        c.prove(name + ": the mean over the components", same(lift(r.get((i, j))), lift(arr(want).get((i, j)))))
        o.noise_ACF(None)
        c.prove(name + ": by default as many as retained", same(lift(asked[1]), kk))
    req_unchanged(c, "noise", a3, a2)


def acf_images(k):
    @S.contract(P + "PCA.autocorr_images", name="autocorrelation_images_%d" % k)
    def f(c):
        from turbustat.statistics.pca import pca as mod
        h, w = fresh_int("h", 1), fresh_int("w", 1)
        e = fresh_arr("e", [h, w] if k == 1 else [k, h, w])
        o = mod.PCA.__new__(mod.PCA)
        o._n_eigs = k
        o.eigimages = lambda n_eigs=None: e
        r = arr(o.autocorr_images())
        c.prove("one map per component", same_shape(r, [h, w] if k == 1 else [k, h, w]))
        i, j = skolem(c, [h, w])
        for t in range(k):
            img = e if k == 1 else e[t]
            F = np_.fft.fft2(img)
            G = np_.conjugate(F)
            want = np_.fft.fftshift(np_.fft.ifft2((F - np_.mean(F)) * (G - np_.mean(G)))).real
            c.prove("component %d: transform of the power" % t, same(
                lift(r.get((i, j) if k == 1 else (t, i, j))), lift(arr(want).get((i, j)))))
        req_unchanged(c, "autocorrelation", e)
    return f


for k_ in (1, 2):
    acf_images(k_)


class Ring:
    def __init__(self, inside, pts):
        self.inside, self.vertices = inside, pts

    def contains_point(self, p):
        return self.inside


def widths2(case):
    @S.contract("turbustat/statistics/pca/width_estimate.py: WidthEstimate2D", name="spatial_widths_" + case)
    def f(c):
        from turbustat.statistics.pca import width_estimate as mod
        import astropy.units as u
        h, w = fresh_int("h", 2), fresh_int("w", 2)
        imgs = [fresh_arr("a%d" % t, [h, w]) for t in range(3)]
        noise = fresh_arr("noise", [h, w])
        wid = [[fresh_real("w%d%d" % (t, q), gt=0) for q in range(4)] for t in range(3)]
        seen = []

        def contour(xm, ym, z, level, idx=0):
            seen.append((xm, ym, z, level))
            t = len(seen) - 1
            if t == 1:
                return [Ring(False, "far")]
            return [Ring(False, "far"), Ring(True, "pts%d" % t), Ring(True, "second")]

        def ellipse(pts, **kw):
            t = int(pts[3:]) if pts.startswith("pts") else -1
            c.prove("the contour around the origin is fitted", t >= 0)
            return tuple(wid[t]) + (object(),)
        beam, pix = fresh_real("beam", gt=0), fresh_real("pix", gt=0)
        kw = dict(noise_ACF=noise, method="contour")
        if case == "beam":
            kw.update(brunt_beamcorrect=True, beam_fwhm=SQuantity(beam, u.arcsec), spatial_cdelt=SQuantity(pix, u.arcmin))
        else:
            kw.update(brunt_beamcorrect=False)
        with patched(mod, get_contour_path=contour, fit_2D_ellipse=ellipse):
            s, e = mod.WidthEstimate2D(list(imgs), **kw)
            if case == "beam":
                for bad in (dict(beam_fwhm=None), dict(spatial_cdelt=None), dict(beam_fwhm=SQuantity(beam, u.pc))):
                    n0 = len(seen)
                    del seen[:]
                    ok, ex = tried(mod.WidthEstimate2D, list(imgs), **dict(kw, **bad))
                    c.prove("the beam and pixel size have to be given as angles", (not ok) and isinstance(
                        ex, (ValueError, u.UnitConversionError)))
        s, e = arr(s), arr(e)
        i, j = skolem(c, [h, w])
        for t in range(3):
            z = seen[t][2]
            d = imgs[t] - noise
            c.prove("image %d less the noise, relative to its peak" % t, same(
                lift(arr(z).get((i, j))), lift(arr(d / np_.max(d)).get((i, j)))))
            if t == 1:
                c.prove("no contour around the origin gives no width", And_(
                    zb(lift(s.get((t,))).nan), zb(lift(e.get((t,))).nan)))
                continue
            y, x, ye, xe = wid[t]
            if case == "beam":
                b = (beam / 3600.) / (pix / 60.) / np.sqrt(8 * np.log(2)) / np.sqrt(2) * 0.25
                y, x = y - b, x - b
            want = np_.sqrt(y ** 2 + x ** 2)
            c.prove("width %d" % t, same(lift(s.get((t,))), lift(want)))
            c.prove("width error %d" % t, same(lift(e.get((t,))), lift(
                np_.sqrt((x * xe) ** 2 + (y * ye) ** 2) / want)))
        req_unchanged(c, "widths", noise, *imgs)
    return f


widths2("beam")
widths2("plain")
