"""Saved statistics: run-time contracts on the real files."""
import io
import os
import tempfile
import types
import warnings
from contextlib import redirect_stdout
import numpy as np
import astropy.units as u
from astropy.io import fits
from ..bcore import registry, Skip, Violation
from .util import need, expect, image, hdr2, hdr3, same_val
CHECKS, check = registry()
P = "turbustat/statistics/"
INPUT = {"data", "_data", "img", "weighted_data", "_centroid", "_moment0", "_linewidth", "centroid", "moment0", "linewidth"}


def makers(rng):
    """every statistic: (name, make, run, given arrays)"""
    import turbustat.statistics as ts
    from radio_beam import Beam
    n = int(rng.randint(20, 34))
    img = image(rng, (n, n), pos=True)
    h2 = hdr2(shape=img.shape)
    nz = int(rng.randint(9, 14))
    cube = np.abs(rng.normal(size=(nz, 14, 16))) + 0.1
    h3 = hdr3(shape=cube.shape)
    d = dict(distance=250 * u.pc) if rng.rand() < 0.5 else {}
    b = dict(beam=Beam(0.02 * u.deg)) if rng.rand() < 0.5 else {}
    w = rng.uniform(0.5, 1.5, size=img.shape)
    pars = {"min_value": 0.0, "min_delta": 0.05, "min_npix": 3}
    return [
        ("Wavelet", lambda: ts.Wavelet(img, header=h2, **d), lambda s: s.run(), [img]),
        ("DeltaVariance", lambda: ts.DeltaVariance(img, header=h2, **d), lambda s: s.run(), [img]),
        ("DeltaVariance with weights", lambda: ts.DeltaVariance(img, header=h2, weights=w, **d), lambda s: s.run(), [img]),
        ("PowerSpectrum", lambda: ts.PowerSpectrum(img, header=h2, **d, **b), lambda s: s.run(fit_2D=bool(rng.rand() < 0.3)), [img]),
        ("PowerSpectrum with weights", lambda: ts.PowerSpectrum(img, header=h2, weights=w, **d), lambda s: s.run(fit_2D=False), [img, img * w]),
        ("MVC", lambda: ts.MVC(img, img + 1, img + 2, header=h2, **d, **b), lambda s: s.run(fit_2D=False), [img, img + 1, img + 2]),
        ("Genus", lambda: ts.Genus(fits.PrimaryHDU(img, h2), **d), lambda s: s.run(), [img]),
        ("Tsallis", lambda: ts.Tsallis(img, header=h2, lags=[1, 2] * u.pix, **d), lambda s: s.run(), [img]),
        ("StatMoments", lambda: ts.StatMoments(img, header=h2, radius=3 * u.pix, **d), lambda s: s.run(), [img]),
        ("Bispectrum", lambda: ts.Bispectrum(img), lambda s: s.run(show_progress=False, nsamples=3), [img]),
        ("PDF", lambda: ts.PDF(img), lambda s: s.run(do_fit=False), [img]),
        ("PDF with weights", lambda: ts.PDF(img, weights=w), lambda s: s.run(do_fit=False), [img]),
        ("PDF with a fit", lambda: ts.PDF(img), lambda s: s.run(do_fit=True), [img]),
        ("SCF", lambda: ts.SCF(cube, header=h3, size=7, **d), lambda s: s.run(), [cube]),
        ("VCA", lambda: ts.VCA(cube, header=h3, **d, **b), lambda s: s.run(fit_2D=False), [cube]),
        ("VCS", lambda: ts.VCS(cube, header=h3), lambda s: s.run(), [cube]),
        ("PCA", lambda: ts.PCA(fits.PrimaryHDU(cube, h3), **d), lambda s: s.run(n_eigs=4, decomp_only=bool(rng.rand() < 0.5), show_progress=False), [cube]),
        ("Dendrogram_Stats", lambda: ts.Dendrogram_Stats(img, header=h2, min_deltas=np.linspace(0.05, 2, 5), dendro_params=pars),
         lambda s: s.run(show_progress=False), [img]),
    ]


def deep(a, b, seen=None, depth=0):
    """equal content, following the attributes of objects"""
    seen = set() if seen is None else seen
    if a is b:
        return True
    if isinstance(a, (np.ndarray, u.Quantity, fits.Header, str, bytes, int, float, complex, bool, np.generic, type(None))):
        if isinstance(a, np.ndarray) and a.dtype == object and not isinstance(a, u.Quantity):
            return isinstance(b, np.ndarray) and a.shape == b.shape and \
                all(deep(x, y, seen, depth + 1) for x, y in zip(a.ravel(), b.ravel()))
        return same_val(a, b)
    if (id(a), id(b)) in seen or depth > 12:
        return True
    seen.add((id(a), id(b)))
    if isinstance(a, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type)):
        return getattr(a, "__qualname__", None) == getattr(b, "__qualname__", None)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(deep(a[k], b[k], seen, depth + 1) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep(x, y, seen, depth + 1) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b)
    d, e = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
    if d is not None and e is not None:
        if hasattr(type(a), "param_names") and hasattr(type(a), "parameters"):
            # astropy model: its parameters
            return list(a.param_names) == list(b.param_names) and same_val(np.array(a.parameters), np.array(b.parameters))
        # lazily computed values may be present in one only
        lazy = {k for k in set(d) ^ set(e)}
        return all(deep(d[k], e[k], seen, depth + 1) for k in d if k not in lazy and not k.startswith("_cache"))
    if type(a).__eq__ is object.__eq__:
        return True
    try:
        return bool(a == b)
    except Exception:
        return True


def prop(o, k):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ("value", getattr(o, k))
    except Exception as e:
        return ("error", type(e).__name__)


def results(o):
    """the public results and settings"""
    names = set()
    for c in type(o).__mro__:
        names |= {k for k, v in vars(c).items() if isinstance(v, property)}
    return {k: prop(o, k) for k in sorted(names) if k not in INPUT and k not in ("_wcs",)}


def holds(v, given):
    return any(isinstance(v, np.ndarray) and v.shape == g.shape and np.array_equal(np.asarray(v), g, equal_nan=True) for g in given)


NAMES = ["result", "result.pkl", "a b.pkl.x", "x.PKL", "pkl", ".pkl", "two.pkl.pkl", "name.", "dir.pkl/file", "é",
         "result.pk", "pklpkl", "r.pickle"]


@check(P + "base_statistic.py: save_results, load_results; mvc.py: save_results",
       quick=36, bound="images of 20 to 33 pixels a side and cubes of at most 13 channels; every statistic, before and after a run")
def round_trip(rng, k, hint):
    with warnings.catch_warnings(), redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        ms = makers(rng)
        name, make, run, given = ms[k % len(ms)]
        after = (k // len(ms)) % 2 == 0
        given = [np.array(g) for g in given]
        s = make()
        if after:
            try:
                run(s)
            except (ValueError, TypeError, ZeroDivisionError, u.UnitsError, np.linalg.LinAlgError) as e:
                raise Skip("the statistic cannot be run: %s" % e)
        for keep in (False, True, None):
            fn = NAMES[int(rng.randint(len(NAMES)))]
            what = "%s %s, %r, keep_data=%s" % (name, "after a run" if after else "before a run", fn, keep)
            with tempfile.TemporaryDirectory() as t:
                os.mkdir(os.path.join(t, "dir.pkl"))
                p = os.path.join(t, fn)
                attrs = dict(vars(s))
                import copy
                prior = copy.deepcopy(vars(s))
                pub = results(s)
                try:
                    if keep is None:
                        s.save_results(p)
                    else:
                        s.save_results(p, keep_data=keep)
                except Exception as e:
                    raise Violation("%s: cannot be saved: %s: %s" % (what, type(e).__name__, e))
                final = p if p.endswith(".pkl") else p + ".pkl"
                files = [os.path.join(d, f) for d, _, fs in os.walk(t) for f in fs]
                need(files == [final], "%s: the files written are %s", what, [os.path.relpath(f, t) for f in files])
                need(list(vars(s)) == list(attrs) and all(vars(s)[a] is attrs[a] for a in attrs),
                     "%s: saving replaced attributes of the object", what)
                need(all(deep(prior[a], vars(s)[a]) for a in prior), "%s: saving changed the object", what)
                o = type(s).load_results(final)
                need(type(o) is type(s), "%s: an object of another class is loaded", what)
                for a, v in vars(s).items():
                    if a in INPUT and not keep:
                        continue
                    need(a in vars(o), "%s: %s is lost", what, a)
                    need(deep(v, vars(o)[a]), "%s: %s differs after loading", what, a)
                for a, v in vars(o).items():
                    if not keep:
                        need(not holds(v, given), "%s: the input is kept in %s", what, a)
                pub2 = results(o)
                for a, v in pub.items():
                    need(a in pub2 and pub2[a][0] == v[0] and deep(v[1], pub2[a][1]), "%s: %s is another one after loading", what, a)
                if keep:
                    need(same_val(np.asarray(s.data), np.asarray(o.data)), "%s: the data are other ones", what)
                else:
                    need(o.data is None, "%s: the data are kept", what)
                # loading did not consume anything: a second time, and saving the loaded object
                o2 = type(s).load_results(final)
                need(all(deep(vars(o)[a], vars(o2)[a]) for a in vars(o)), "%s: loading twice gives another object", what)
                o.save_results(os.path.join(t, "again"), keep_data=True)
                o3 = type(s).load_results(os.path.join(t, "again.pkl"))
                need(all(deep(vars(o)[a], vars(o3)[a]) for a in vars(o)), "%s: saving what was loaded changes it", what)


@check(P + "base_statistic.py: save_results, load_results", quick=14, bound="histories of at most six steps on small images")
def history(rng, k, hint):
    """saves, runs and loads in any order: a file stays what it was when it was written"""
    with warnings.catch_warnings(), redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        ms = [m for m in makers(rng) if m[0] in ("Wavelet", "PowerSpectrum", "MVC", "Genus", "PDF", "SCF", "Bispectrum")]
        name, make, run, given = ms[k % len(ms)]
        s = make()
        import copy
        files = {}
        with tempfile.TemporaryDirectory() as t:
            for step in range(6):
                act = rng.choice(["save", "run", "load"])
                if act == "run":
                    if s.data is None:
                        continue
                    run(s)
                elif act == "save":
                    fn = os.path.join(t, rng.choice(["a", "b.pkl", "c.pkl"]))
                    keep = bool(rng.rand() < 0.5)
                    s.save_results(fn, keep_data=keep)
                    files[fn if fn.endswith(".pkl") else fn + ".pkl"] = (copy.deepcopy(vars(s)), keep)
                elif files:
                    fn = sorted(files)[int(rng.randint(len(files)))]
                    s = type(s).load_results(fn)
                for fn, (want, keep) in files.items():
                    o = type(s).load_results(fn)
                    need(sorted(vars(o)) == sorted(want), "%s: attributes of the saved object are missing or new", name)
                    for a in want:
                        if a in INPUT and not keep:
                            need(vars(o)[a] is None, "%s: the input is kept in %s", name, a)
                        else:
                            need(deep(want[a], vars(o)[a]), "%s: %s of an earlier save has changed", name, a)
                need(sorted(os.listdir(t)) == sorted(os.path.basename(f) for f in files), "%s: other files were written", name)


@check(P + "base_statistic.py: load_results", quick=4, bound="one missing file per call")
def missing(rng, k, hint):
    from turbustat.statistics import SCF
    with tempfile.TemporaryDirectory() as t:
        expect(Exception, "a missing file", SCF.load_results, os.path.join(t, "nothing.pkl"))
        need(os.listdir(t) == [], "loading a missing file created one")
