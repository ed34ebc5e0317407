"""Seeded routines: same numbers for every state of the global generator, which is
left as it was found."""
from ..harness import *
from .. import nps, stubs, core, rng
from ..values import SQuantity, SArr, SReal, SCplx
from .C07 import patched
import numpy as np

S = Suite("C21")
G = "turbustat/simulator/gen_field.py: "
F = "turbustat/statistics/fitting_utils.py: "
B = "turbustat/statistics/pspec_bispec/bispec.py: "
K = "turbustat/statistics/cramer/cramer.py: "
np_ = nps.np_shim


def twice(c, name, f):
    """f() from two arbitrary states of the global generator"""
    s1 = rng.start(c)
    r1 = f()
    c.prove(name + ": global generator left as found", c.rng.state.same(s1))
    s2 = rng.start(c)
    r2 = f()
    c.prove(name + ": global generator left as found (second run)", c.rng.state.same(s2))
    return r1, r2


def both(c, name, a, b):
    """elementwise equality of two results"""
    if isinstance(a, SArr):
        c.prove(name + ": same shape", same_shape(b, a._shape))
        i = skolem(c, a)
        c.prove(name + ": same numbers for the same seed", same(lift(a.get(i)), lift(b.get(i))))
    else:
        c.prove(name + ": same numbers for the same seed", same(lift(a), lift(b)))


def field(c, fn, *a, **k):
    from turbustat.simulator import gen_field as mod
    return lambda: getattr(mod, fn)(*a, **k)


for dim, name in ((2, "make_extended"), (3, "make_3dfield")):
    def mk(dim=dim, name=name):
        @S.contract(G + name, name=name, budget_s=90)
        def con(c):
            from turbustat.simulator import gen_field as mod
            n, seed, p = fresh_int("imsize", 2), fresh_int("seed", 0), fresh_real("powerlaw")
            kw = dict(powerlaw=p, randomseed=seed)
            if dim == 2:
                if c.branch(z3.Bool("elliptical")):
                    e = fresh_real("ellip", gt=0)
                    c.assume(e.v < 1)
                    kw.update(ellip=e, theta=fresh_real("theta"))
                if c.branch(z3.Bool("transform")):
                    kw.update(return_fft=True, full_fft=c.branch(z3.Bool("full")))
            a, b = twice(c, name, lambda: getattr(mod, name)(n, **kw))
            both(c, name, a, b)
    mk()



class Model:
    """a statsmodels model by what residual_bootstrap uses of it: the fit is a
    function of the resampled values and the design"""
    fail = False

    def __init__(self, endog, exog):
        self.wendog = self.endog = endog
        self.exog = exog

    def fit(self, **kw):
        if Model.fail and core.CUR.branch(z3.Bool("the fit fails")):
            raise RuntimeError("no convergence")
        return Fit(self)


class Fit:
    def __init__(self, m):
        self.model = m
        c = core.CUR
        f, g = arr(m.endog).snap(), arr(m.exog).snap()
        p = []
        for i in range(2):
            t = c.functional("ols%d" % i, [arr(m.endog)._shape[0]],
                             lambda q: [to_real(lift(f(q))).v, to_real(lift(g(tuple(q) + (0,)))).v, to_real(lift(g(tuple(q) + (1,)))).v])
            p.append(SReal(t))
        self.params = V.arr(p)


def bootstrap(c, nboot):
    from turbustat.statistics.fitting_utils import residual_bootstrap
    n, seed = fresh_int("n", 3), fresh_int("seed", 0)
    y, r, X = fresh_arr("y", [n]), fresh_arr("resid", [n]), fresh_arr("X", [n, 2])
    fm = Fit.__new__(Fit)
    fm.model, fm.wresid = Model(y, X), r
    return fm, lambda **k: residual_bootstrap(fm, nboot=nboot, seed=seed, **k), (y, r, X)


@S.contract(F + "residual_bootstrap", name="bootstrap_errors", budget_s=90)
def bootstrap_errors(c):
    Model.fail = False
    fm, run, owned = bootstrap(c, fresh_int("nboot", 2))
    a, b = twice(c, "residual_bootstrap", run)
    both(c, "residual_bootstrap", a, b)
    req_unchanged(c, "residual_bootstrap", *owned)


@S.contract(F + "residual_bootstrap", name="bootstrap_samples", budget_s=90)
def bootstrap_samples(c):
    Model.fail = False
    fm, run, owned = bootstrap(c, fresh_int("nboot", 2))
    a, b = twice(c, "residual_bootstrap", lambda: run(return_samps=True))
    both(c, "residual_bootstrap", a, b)


@S.contract(F + "residual_bootstrap", name="bootstrap_failing_fit")
def bootstrap_failing(c):
    """also when a refit raises"""
    Model.fail = True
    fm, run, owned = bootstrap(c, 2)
    s = rng.start(c)
    outcome(run)
    c.prove("global generator left as found, also after an error", c.rng.state.same(s))


@S.contract(K + "Cramer_Distance.format_data", budget_s=90)
def cramer_sampling(c):
    from turbustat.statistics.cramer import cramer as mod
    n1, n2, c1, c2 = [fresh_int(x, 1) for x in ("n1", "n2", "chan1", "chan2")]
    seed = fresh_int("seed", 0)
    A, B_ = fresh_arr("A", [c1, n1]), fresh_arr("B", [c2, n2])

    def fmt(cube, **k):
        return cube

    def run():
        o = mod.Cramer_Distance.__new__(mod.Cramer_Distance)
        o.cube1, o.cube2, o.noise_value1, o.noise_value2 = A, B_, None, None
        with patched(mod, _format_data=fmt):
            o.format_data(seed=seed)
        return o.data_matrix1, o.data_matrix2
    a, b = twice(c, "format_data", run)
    for i in (0, 1):
        both(c, "format_data, matrix %d" % (i + 1), a[i], b[i])
    req_unchanged(c, "format_data", A, B_)


@S.contract(B + "Bispectrum.compute_bispectrum", budget_s=120)
def bispectrum(c):
    from turbustat.statistics.pspec_bispec import bispec as mod
    ny, nx, seed, ns = fresh_int("ny", 4), fresh_int("nx", 4), fresh_int("seed", 0), fresh_int("nsamples", 1)
    x = fresh_arr("img", [ny, nx])
    sub = c.branch(z3.Bool("mean_subtract"))

    def run():
        o = mod.Bispectrum.__new__(mod.Bispectrum)
        o.data = x
        o.shape = x.shape
        o.compute_bispectrum(show_progress=False, nsamples=ns, seed=seed, mean_subtract=sub)
        return o._bispectrum, o._bicoherence
    a, b = twice(c, "compute_bispectrum", run)
    both(c, "bispectrum", a[0], b[0])
    both(c, "bicoherence", a[1], b[1])
    req_unchanged(c, "compute_bispectrum", x)
