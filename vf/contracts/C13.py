"""Bispectra."""
from ..harness import *
from .. import nps, stubs, core, rng, speccode
from ..values import SArr, SReal, SCplx, to_cplx, zi_, zi
from .C07 import patched, fin
import numpy as np

S = Suite("C13")
B = "turbustat/statistics/pspec_bispec/bispec.py: "
np_ = nps.np_shim

SPEC = """
from itertools import product
from astropy.utils import NumpyRNGContext

def triads(F, shape, nsamples, seed):
    h, w = shape[0] // 2, shape[1] // 2
    total = np.zeros((h, w), dtype=complex)
    norm = np.zeros((h, w), dtype=float)
    with NumpyRNGContext(seed):
        for k1, k2 in product(range(h), range(w)):
            a = np.random.uniform(0, 2 * np.pi, nsamples)
            b = np.random.uniform(0, 2 * np.pi, nsamples)
            x1 = np.asarray([int(k1 * np.cos(t)) for t in a]) % shape[0]
            y1 = np.asarray([int(k1 * np.sin(t)) for t in a]) % shape[1]
            x2 = np.asarray([int(k2 * np.cos(t)) for t in b]) % shape[0]
            y2 = np.asarray([int(k2 * np.sin(t)) for t in b]) % shape[1]
            x3 = np.asarray([int(k1 * np.cos(s) + k2 * np.cos(t)) for s, t in zip(a, b)]) % shape[0]
            y3 = np.asarray([int(k1 * np.sin(s) + k2 * np.sin(t)) for s, t in zip(a, b)]) % shape[1]
            z = F[x1, y1] * F[x2, y2] * np.conj(F[x3, y3])
            total[k1, k2] = np.sum(z)
            norm[k1, k2] = np.sum(np.abs(z))
    return total, norm
"""


def build(c, mod, x):
    o = mod.Bispectrum.__new__(mod.Bispectrum)
    o.data = x
    o.shape = x.shape
    return o


def transform(c, dims):
    """numpy's transform: records what it is taken of, returns arbitrary coefficients"""
    re, im = [z3.Function("F_" + k, V.In, V.In, V.Rl) for k in ("re", "im")]
    F = lambda: SArr.new(dims, lambda i: SCplx(SReal(re(zi_(i[0]), zi_(i[1]))), SReal(im(zi_(i[0]), zi_(i[1])))), "c")
    calls = []

    def fft2(a, *args, **k):
        if args or k:
            raise Unsupported("fft2 with options")
        calls.append(arr(a).copy())
        return F()
    c.np_hooks = {"fft.fft2": fft2, "fft.fftn": fft2}
    return calls, F


def triangle(c, name, re, im, ab):
    """|sum z| <= sum |z|, by induction over the terms"""
    apps = [c.fdefs.get(t.decl().name()) for t in (re, im, ab)]
    if any(d is None or d.op != "sum" for d in apps) or len({tuple(x.get_id() for x in d.dims) for d in apps}) != 1:
        raise Unsupported("not sums over the same box")
    at = [c.index("s", 0, None) for _ in apps[0].bound]
    one = []
    for d, t in zip(apps, (re, im, ab)):
        sub = [(z3.Int("@b%d" % n), v) for n, v in enumerate(at)] + \
              [(z3.Int("@p%d" % n), v) for n, v in enumerate(t.children())]
        one.append(z3.substitute(d.body[0], *sub))
    c.prove(name + ": a term of the norm is the modulus", And_(one[2] >= 0, one[2] * one[2] == one[0] * one[0] + one[1] * one[1]))
    R = z3.Reals("tri_s tri_t tri_A tri_x tri_y tri_a")
    s, t, A, x, y, a = R
    h = [A >= 0, s * s + t * t <= A * A, a >= 0, a * a == x * x + y * y]
    g = (s + x) * (s + x) + (t + y) * (t + y) <= (A + a) * (A + a)
    c.prove(name + ": triangle inequality, induction step", z3.Implies(z3.And(*h), g))
    c.assume(And_(ab >= 0, re * re + im * im <= ab * ab))


@S.contract(B + "Bispectrum.compute_bispectrum", budget_s=120)
def triads(c):
    from turbustat.statistics.pspec_bispec import bispec as mod
    ny, nx, seed, ns = fresh_int("ny", 4), fresh_int("nx", 4), fresh_int("seed", 0), fresh_int("nsamples", 1)
    x = fresh_arr("img", [ny, nx])
    calls, F = transform(c, [ny.e, nx.e])
    s0 = rng.start(c)
    o = build(c, mod, x)
    o.compute_bispectrum(show_progress=False, nsamples=ns, seed=seed)
    c.prove("generator left alone", c.rng.state.same(s0))
    total, norm = speccode.load(SPEC)["triads"](F(), (ny, nx), ns, seed)
    h, w = zi(ny.e / 2), zi(nx.e / 2)
    for name, a in (("bispectrum", o.bispectrum), ("bicoherence", o.bicoherence), ("log amplitude", o.bispectrum_logamp)):
        c.prove("shape of the " + name, same_shape(a, [h, w]))
    c.prove("shape of the sample counts", same_shape(o.tracker, [ny.e, nx.e]))
    i, j = c.index("i", 0, h), c.index("j", 0, w)
    t, nm = to_cplx(lift(total.get((i, j)))), lift(norm.get((i, j)))
    v = to_cplx(lift(o.bispectrum.get((i, j))))
    c.lemma("sum of the triads", And_(same(v.re, t.re), same(v.im, t.im)))
    tre, tim, tn = [c.resolve(u.v) for u in (t.re, t.im, nm)]
    triangle(c, "bicoherence", tre, tim, tn)
    b = lift(o.bicoherence.get((i, j)))
    mod_ = np_.sqrt(t.re ** 2 + t.im ** 2)
    c.prove("not a number where no power was sampled", z3.Implies(tn == 0, zb(b.nan)))
    c.prove("modulus over the summed moduli", z3.Implies(tn != 0, zb(same(b, mod_ / nm))))
    c.prove("between 0 and 1", z3.Implies(tn != 0, zb(And_(fin(b), b.v >= 0, b.v <= 1))))


@S.contract(B + "Bispectrum.compute_bispectrum", budget_s=60)
def mean(c):
    """the transform is of the image, or of the image less its mean; an added constant
    then makes no difference"""
    from turbustat.statistics.pspec_bispec import bispec as mod
    ny, nx, seed, ns = fresh_int("ny", 4), fresh_int("nx", 4), fresh_int("seed", 0), fresh_int("nsamples", 1)
    x = fresh_arr("img", [ny, nx])
    k = fresh_real("constant")
    calls, F = transform(c, [ny.e, nx.e])
    rng.start(c)
    sub = c.branch(z3.Bool("mean_subtract"))
    kw = dict(show_progress=False, nsamples=ns, seed=seed, mean_subtract=sub)
    if c.branch(z3.Bool("threads are ignored without pyfftw")):
        kw.update(threads=fresh_int("threads", 1))
    run = c.branch(z3.Bool("by run"))
    for d in (x, x + k):
        o = build(c, mod, d)
        if run:
            c.prove("run gives the object", o.run(**kw) is o)
        else:
            o.compute_bispectrum(**kw)
    c.prove("one transform each", len(calls) == 2)
    i = skolem(c, [ny.e, nx.e])
    m = lift(np_.mean(x))
    a, b = [lift(t.get(i)) for t in calls]
    if sub:
        c.prove("transform of the image less its mean", same(a, lift(x.get(i)) - m))
        c.prove("an added constant has no influence", same(a, b))
    else:
        c.prove("transform of the image", same(a, x.get(i)))
    req_unchanged(c, "compute_bispectrum", x)


@S.contract(B + "Bispectrum", budget_s=60)
def missing(c):
    from turbustat.statistics.pspec_bispec import bispec as mod
    ny, nx = fresh_int("ny", 4), fresh_int("nx", 4)
    x = fresh_arr("img", [ny, nx], nan=True)
    with patched(mod, input_data=lambda d, **k: d):
        o = mod.Bispectrum(x)
    i = skolem(c, [ny.e, nx.e])
    v = lift(x.get(i))
    c.prove("shape kept", And_(same_shape(o.data, [ny.e, nx.e]), zi_(o.shape[0]) == ny.e, zi_(o.shape[1]) == nx.e))
    c.prove("missing pixels are zero, others as given",
            same(lift(o.data.get(i)), SReal(z3.If(zb(v.nan), z3.RealVal(0), v.v))))
    req_unchanged(c, "Bispectrum", x)


def surface(c, mod):
    h, w = fresh_int("h", 2), fresh_int("w", 2)
    o = mod.Bispectrum.__new__(mod.Bispectrum)
    o._bispectrum = fresh_arr("bispec", [h, w], nan=True)
    o._bispectrum_amp = fresh_arr("amp", [h, w], nan=True, inf=True)
    o._bicoherence = fresh_arr("bico", [h, w], nan=True)
    which = "bicoherence" if c.branch(z3.Bool("bicoherence")) else "bispectrum_logamp"
    return o, h, w, which, o._bicoherence if which == "bicoherence" else o._bispectrum_amp


class Binned:
    """scipy's binned_statistic by its contract: the statistic of the values whose
    coordinate falls into each bin; records what it is asked for"""

    def __init__(self):
        self.calls = []

    def __call__(self, x, values, statistic="mean", bins=10, range=None):
        if range is not None or not isinstance(bins, SArr):
            raise Unsupported("binned_statistic with a range or a bin count")
        n = zi(zi_(bins._shape[0]) - 1)
        out = fresh_arr("stat", [n], nan=True)
        self.calls.append((x, values, getattr(statistic, "real", statistic), bins.copy(), out))
        return out, bins, None


def slice_rows(c, st, r, h, w, val, inside, coord, top, bw):
    """rows of a slice: centres of even bins, means and deviations of the finite values
    inside"""
    m = r._shape[1]
    c.prove("three rows, as many even bins as the width asks for",
            And_(same_shape(r, [3, m]), zi_(m) == lift(np_.floor(top / bw).astype(int)).e - 1))
    c.assume(zi_(m) >= 1)
    k = c.index("k", 0, m)
    edge = lambda q: to_real(lift(SInt(zi_(q)))) * top / to_real(lift(SInt(zi_(m))))
    lo, hi = lift(edge(k)), lift(edge(zi_(k) + 1))
    c.prove("bin centres", same(r.get((0, k)), (lo + hi) / 2))
    want = {"mean": (np.nanmean, np.mean, "mean"), "std": (np.nanstd, np.std, "std")}
    q = skolem(c, [h.e, w.e])
    for row, name in ((1, "mean"), (2, "std")):
        hit = [t for t in st if any(t[2] is f or isinstance(f, str) and t[2] == f for f in want[name])]
        c.prove("row %d is a %s" % (row, name), len(hit) == 1)
        x, v, _, bins, out = hit[0]
        c.prove("row %d as binned" % row, And_(same_shape(out, [m]), same(r.get((row, k)), out.get((k,)))))
        c.prove("even bins", And_(same(bins.get((k,)), lo), same(bins.get((zi(zi_(k) + 1),)), hi)))
        if not (isinstance(x, V.SSel) and isinstance(v, V.SSel) and len(x.bdims) == len(v.bdims) == 2):
            raise Unsupported("slice of something else than a selection of the plane")
        for t, what in ((x, "coordinates"), (v, "values")):
            c.prove("%s over the plane" % what, And_(zi_(t.bdims[0]) == h.e, zi_(t.bdims[1]) == w.e))
            c.prove("%s of the finite values inside" % what,
                    zb(V.to_bool(t.mask(q)).c) == zb(And_(fin(lift(val.get(q))), inside(q))))
        c.prove("binned by angle or radius", lift(x.fn(q)).v == coord(q))
        c.prove("values of the chosen surface", same(v.fn(q), val.get(q)))


def keyed(f):
    """symbolic numbers as dictionary keys: all in one bucket, compared by value"""
    with patched(SReal, __hash__=lambda s: 0):
        return f()


def place(q):
    y, x = [to_real(lift(SInt(zi_(t)))) for t in q]
    return lift(np_.sqrt(y ** 2 + x ** 2)).v, lift(np_.arctan2(y, x)).v


def slicing(c, radial):
    from turbustat.statistics.pspec_bispec import bispec as mod
    import astropy.units as u
    o, h, w, which, val = surface(c, mod)
    bw = fresh_real("bin_width", gt=0)
    a1, a2, d1, d2 = [fresh_real(n, gt=0) for n in ("at1", "at2", "width1", "width2")]
    c.assume(a1.v != a2.v)
    many = c.branch(z3.Bool("two slices"))
    own = many and c.branch(z3.Bool("own widths"))
    masks = c.branch(z3.Bool("masks"))
    if radial:
        unit = u.rad
        at = V.SQuantity(arr([a1, a2]) if many else a1, unit)
        wd = V.SQuantity(arr([d1, d2]) if own else d1, unit)
        f = lambda: o.radial_slice(at, wd, bin_width=bw, value=which, return_masks=masks)
        top = lift(np_.max(SArr.new([h.e, w.e], lambda q: SReal(place(q)[0]), "f")))
    else:
        f = lambda: o.azimuthal_slice([a1, a2] if many else a1, arr([d1, d2]) if own else d1,
                                      bin_width=V.SQuantity(bw, u.rad), value=which, return_masks=masks)
        top = lift(np.pi)

    def go():
        out = f()
        ms = None
        if masks:
            out, ms = out
        return len(out), [out[a] for a in ([a1, a2] if many else [a1])], ms
    c.assume(lift(np_.floor(top / bw).astype(int)).e >= 2)       # at least one bin
    st = Binned()
    with patched(mod, binned_statistic=st):
        n, rows, ms = keyed(go)
    c.prove("two statistics per slice", len(st.calls) == 2 * len(rows))
    c.prove("one slice per place", n == len(rows))
    if ms is not None:
        c.prove("one mask per slice", len(ms) == len(rows))
    for k, (r, a, d) in enumerate(zip(rows, (a1, a2), (d1, d2 if own else d1))):
        inside = lambda q: And_(place(q)[radial] >= a.v - d.v / 2, place(q)[radial] <= a.v + d.v / 2)
        slice_rows(c, st.calls[2 * k:2 * k + 2], r, h, w, val, inside, lambda q: place(q)[1 - radial], top, bw)
        if ms is not None:
            q = skolem(c, [h.e, w.e])
            c.prove("masks", same(ms[k].get(q), SBool(inside(q))))


@S.contract(B + "Bispectrum.azimuthal_slice", budget_s=120)
def azimuthal(c):
    slicing(c, 0)


@S.contract(B + "Bispectrum.radial_slice", budget_s=120)
def radial(c):
    slicing(c, 1)


@S.contract(B + "Bispectrum.azimuthal_slice")
def refused(c):
    from turbustat.statistics.pspec_bispec import bispec as mod
    import astropy.units as u
    o, h, w, which, val = surface(c, mod)
    a1, a2, d1 = [fresh_real(n, gt=0) for n in ("at1", "at2", "width1")]
    bw = fresh_real("bin_width", gt=0)
    rad = V.SQuantity(bw, u.rad)
    cases = [
        ("azimuthal slice of an unknown surface", TypeError, lambda: o.azimuthal_slice(a1, d1, value="tracker")),
        ("azimuthal bin width without an angle", TypeError, lambda: o.azimuthal_slice(a1, d1, bin_width=bw, value=which)),
        ("azimuthal bin width in pixels", TypeError, lambda: o.azimuthal_slice(a1, d1, bin_width=V.SQuantity(bw, u.pix), value=which)),
        ("azimuthal widths for another number of radii", ValueError,
         lambda: o.azimuthal_slice([a1, a2], arr([d1]), bin_width=rad, value=which)),
        ("radial slice of an unknown surface", TypeError,
         lambda: o.radial_slice(V.SQuantity(a1, u.rad), V.SQuantity(d1, u.rad), value="tracker")),
        ("radial angles in pixels", TypeError,
         lambda: o.radial_slice(V.SQuantity(a1, u.pix), V.SQuantity(d1, u.rad), value=which)),
        ("radial widths in pixels", TypeError,
         lambda: o.radial_slice(V.SQuantity(a1, u.rad), V.SQuantity(d1, u.pix), value=which)),
        ("radial widths for another number of angles", ValueError,
         lambda: o.radial_slice(V.SQuantity(arr([a1, a2]), u.rad), V.SQuantity(arr([d1]), u.rad), value=which))]
    with patched(mod, binned_statistic=Binned()):
        for name, exc, f in cases:
            st, v = outcome(lambda: keyed(f))
            c.prove(name + " is refused", st == "exc" and isinstance(v, exc))
