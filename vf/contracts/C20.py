"""Segmented linear fit."""
from ..harness import *
from .. import nps, stubs, core, rt
from ..values import SQuantity, SArr, SSel, SReal, SBool, zi_
from .C07 import patched, fin
import numpy as np

S = Suite("C20")
M = "turbustat/statistics/lm_seg.py: "
np_ = nps.np_shim


def mod():
    from turbustat.statistics import lm_seg
    return lm_seg


class Result:
    """a fitted linear model by its contract: some parameters, errors, residuals"""

    def __init__(self, model):
        c = core.ctx()
        self.model = model
        nm = "r%d" % next(c.counter)
        k = model.k
        self.params = fresh_arr(nm + "_par", [k], nan=True, inf=True, owner=None)
        self.bse = fresh_arr(nm + "_bse", [k], ge=0, nan=True, owner=None)
        self.resid = fresh_arr(nm + "_res", [model.n], nan=True, owner=None)
        self.cov = fresh_arr(nm + "_cov", [k, k], nan=True, owner=None)

    def cov_params(self):
        return self.cov

    def summary(self):
        return ""


class Const:
    def __init__(self, X):
        self.X = X


class Fit:
    def __init__(self, kind, y, X, weights=None):
        self.kind, self.y, self.weights = kind, y, weights
        X0 = X.X if isinstance(X, Const) else X
        X0 = arr(X0)
        self.cols = 1 if X0.ndim == 1 else X0._shape[1]
        if not isinstance(self.cols, int):
            raise Unsupported("design matrix")
        self.const = isinstance(X, Const)
        self.X = X0
        self.k = self.cols + (1 if self.const else 0)
        self.n = X0._shape[0]

    def fit(self, **k):
        return Result(self)


class SM:
    def add_constant(self, X, has_constant="skip", prepend=True):
        if not prepend:
            raise Unsupported("constant last")
        return Const(X)

    def OLS(self, y, X, missing="none"):
        return Fit("OLS", y, X)

    def WLS(self, y, X, weights=1., missing="none"):
        return Fit("WLS", y, X, weights)


def points(c, nan=False):
    n = fresh_int("n", 1 if nan else 4)
    x, y = fresh_arr("x", [n], nan=nan, inf=nan), fresh_arr("y", [n], nan=nan, inf=nan)
    return n, x, y


def ok(x, y, r):
    return And_(fin(x.get(r)), fin(y.get(r)))


for _w in (False, True):
    def _mk(w):
        @S.contract(M + "Lm_Seg.__init__", name="accepted" + ("_weighted" if w else ""))
        def f(c):
            n, x, y = points(c, True)
            b = fresh_real("brk", nan=True, inf=True)
            ws = fresh_arr("w", [n], nan=True, inf=True) if w else None
            k, o = outcome(mod().Lm_Seg, x, y, b, **({"weights": ws} if w else {}))
            xs = x[np_.logical_and(np_.isfinite(x), np_.isfinite(y))]

            def lim():
                # there is a smallest and a largest usable point
                try:
                    return lift(np_.min(xs)), lift(np_.max(xs))
                except ValueError:
                    c.lemma("no usable points", np_.sum(np_.logical_and(np_.isfinite(x), np_.isfinite(y))).e <= 0)
                    return None, None
            if k == "exc":
                if isinstance(o, Warning):
                    # fewer than four usable points
                    c.prove("too few points", np_.sum(np_.logical_and(np_.isfinite(x), np_.isfinite(y))).e <= 3)
                    return
                c.prove("refused with a ValueError", isinstance(o, ValueError))
                bad = [b.nan, b.inf]
                if w:
                    bad.append(Not_(to_bool(np_.all(np_.isfinite(ws))).c))
                lo, hi = lim()
                c.prove("refused for a break or weights that are not usable", Or_(*(bad + ([b.v < lo.v, b.v > hi.v] if lo is not None else []))))
                return
            lo, hi = lim()
            if lo is None:
                c.prove("there are usable points", False)
                return
            c.prove("the break is finite", fin(b))
            c.prove("the break is in the range of the finite points", And_(lo.v <= b.v, b.v <= hi.v))
            if w:
                i = c.index("i", 0, n.e)
                c.prove("the weights are finite", fin(ws.get((i,))))
            r = skolem(c, [n])
            for nm, got, src in [("x", o.x, x), ("y", o.y, y)] + ([("weights", o.weights, ws)] if w else []):
                if not isinstance(got, SSel):
                    raise Unsupported("points kept in another way")
                c.prove("%s: exactly the points with both coordinates finite" % nm, zb(to_bool(got.mask(r)).c) == zb(ok(x, y, r)))
                c.prove("%s: their values" % nm, Or_(Not_(ok(x, y, r)), same(got.fn(r), src.get(r))))
            req_unchanged(c, "Lm_Seg", x, y, *([ws] if w else []))
    _mk(_w)


@S.contract(M + "Lm_Seg.__init__")
def sizes(c):
    n, x, y = points(c, True)
    k = fresh_int("k", 1)
    c.assume(k.e != n.e)
    w = fresh_arr("w", [k])
    b = fresh_real("brk")
    r, e = outcome(mod().Lm_Seg, x, y, b, weights=w)
    c.prove("weights of another length refused", r == "exc" and isinstance(e, ValueError))


def fit(c, weights):
    m = mod()
    n, x, y = points(c)
    o = m.Lm_Seg.__new__(m.Lm_Seg)
    o.x, o.y, o.brk = x, y, fresh_real("brk")
    o.weights = fresh_arr("w", [n]) if weights else None
    lo, hi = lift(np_.min(x)), lift(np_.max(x))

    def inrange():
        b = to_real(lift(o.brk))
        return And_(fin(b), lo.v <= b.v, b.v <= hi.v)
    c.assume(inrange())

    def arbitrary():
        o.brk = fresh_real("brk_k", nan=True)
        o.break_fail_flag = False            # part of the invariant
    last = {}

    def fits():
        last["fit"] = Fit("WLS" if weights else "OLS", y, Const(np_.vstack([x, x, x]).T), o.weights).fit()
        return last["fit"]
    # a failed search leaves the loop at once
    c.loops[("fit_model", 0)] = rt.While("search for the break", lambda v: And_(inrange(), Not_(to_bool(lift(o.break_fail_flag)).c)),
                                         values={"fit": fits, "it": lambda: fresh_int("it", 0)}, attrs=arbitrary)
    # the inner search only changes local numbers until it ends
    c.loops[("fit_model.inner", 0)] = rt.While("halving of the step", lambda v: And_(inrange(), Not_(to_bool(lift(o.break_fail_flag)).c)),
                                               values={"h_it": lambda: fresh_int("h_it", 0), "it": lambda: fresh_int("it", 0)})
    with patched(m, sm=SM()):
        o.fit_model(verbose=False)
    if not c.loops[("fit_model", 0)].entered:
        raise Unsupported("the search is written in another way")
    return o, n, x, y, lo, hi, inrange


for _w in (False, True):
    def _mkf(w):
        @S.contract(M + "Lm_Seg.fit_model, get_slopes, params, deriv_max", name="fit" + ("_weighted" if w else ""), budget_s=150)
        def f(c):
            o, n, x, y, lo, hi, inrange = fit(c, w)
            c.prove("the break lies in the range of the points", inrange())
            F = o.fit.model
            c.prove("weights used exactly when given", F.kind == ("WLS" if w else "OLS") and (not w or F.weights is o.weights))
            r = c.index("r", 0, n.e)
            c.prove("all points take part in the final fit", same(arr(F.y).get((r,)), y.get((r,))))
            b = to_real(lift(o.brk))
            p, e = arr(o.fit.params), arr(o.fit.bse)
            if o.break_fail_flag is True or (not isinstance(o.break_fail_flag, bool) and c.branch(to_bool(o.break_fail_flag).c)):
                c.prove("a single straight line", F.cols == 1 and F.const)
                X = F.X
                c.prove("of x", same(X.get((r,)) if X.ndim == 1 else X.get((r, 0)), x.get((r,))))
                s, se = arr(o.slopes), arr(o.slope_errs)
                c.prove("one slope", And_(same_shape(s, [1]), same(s.get((0,)), p.get((1,)))))
                c.prove("one error", And_(same_shape(se, [1]), same(se.get((0,)), e.get((1,)))))
            else:
                c.prove("two lines", F.cols == 3 and F.const)
                if F.cols != 3:
                    return
                X = F.X
                xr = to_real(lift(x.get((r,))))
                c.prove("first term: x", same(X.get((r, 0)), xr))
                u_ = to_real(lift(X.get((r, 1))))
                v_ = to_real(lift(X.get((r, 2))))
                c.prove("second term: the distance beyond the break", And_(fin(u_), u_.v == z3.If(xr.v > b.v, xr.v - b.v, rv(0))))
                c.prove("third term: minus one from the break on", And_(fin(v_), v_.v == z3.If(xr.v >= b.v, rv(-1), rv(0))))
                s, se = arr(o.slopes), arr(o.slope_errs)
                c.prove("two slopes", And_(same_shape(s, [2]), same_shape(se, [2])))
                c.prove("slope below the break", same(s.get((0,)), p.get((1,))))
                c.prove("slope above: the sum with the change at the break", same(s.get((1,)), lift(p.get((1,)) + p.get((2,)))))
                c.prove("error below the break", same(se.get((0,)), e.get((1,))))
                c.prove("error above: in quadrature", same(se.get((1,)), lift(np_.sqrt(e.get((2,)) ** 2 + e.get((1,)) ** 2))))
            q = arr(o.params)
            c.prove("the break is the last of the parameters", same(q.get((q._shape[0] - 1,)), b))
            req_unchanged(c, "fit_model", x, y, *([o.weights] if w else []))
    _mkf(_w)


@S.contract(M + "deriv_max, brk_errs")
def pieces(c):
    m = mod()
    n = fresh_int("n", 1)
    a = fresh_arr("a", [n], nan=True)
    b = fresh_real("b")
    d = m.deriv_max(a, b)
    r = c.index("r", 0, n.e)
    v, x = to_real(lift(d.get((r,)))), a.get((r,))
    c.prove("derivative of the excess over the break", And_(fin(v), v.v == z3.If(And_(Not_(x.nan), x.v < b.v), rv(0), rv(-1))))
    p, cov = fresh_arr("p", [5]), fresh_arr("cov", [4, 4])
    e = lift(m.brk_errs(p, cov))
    g = p.get((3,)) / p.get((2,))
    ref = np_.sqrt(cov.get((3, 3)) + cov.get((2, 2)) * g ** 2. + 2 * cov.get((3, 2)) * g)
    c.prove("error of the break by propagation", same(e, lift(ref)))
    req_unchanged(c, "deriv_max", a)
