"""Symbolic values: scalars, arrays with element functions, selections, quantities.

Floating point numbers are modelled as mathematical reals with explicit
not-a-number and infinity flags; integers as mathematical integers.
"""
import operator
import numbers
from fractions import Fraction
import numpy as np
import z3
import astropy.units as u
from . import core
from .core import (Unsupported, ctx, Or_, And_, Not_, zb, rv, b_true, b_false,
                   R1, ATAN2, POW)

ArrSort = z3.DeclareSort("Arr")
Rl, In, Bo = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def is_dim_const(d):
    return isinstance(d, (int, np.integer)) or z3.is_int_value(d)


def zi(x):
    """-> z3 Int or python int (constants stay python)"""
    if isinstance(x, SInt):
        x = x.e
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, z3.ArithRef):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        return x
    if isinstance(x, SBool):
        return z3.If(x.c, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("not an integer: %r" % (type(x),))


def as_dim(x):
    if isinstance(x, SInt):
        return zi(x.e)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, z3.ArithRef):
        return zi(x)
    raise TypeError("an integer is required (got type %s)" % type(x).__name__)


def nice(x):
    """python float -> z3 real; a float that is the nearest double of a simple
    ratio is read as that ratio (floats are idealised as reals anyway)."""
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant in real context")
    f = Fraction(x)
    if f.denominator <= 1 << 20:
        return z3.Q(f.numerator, f.denominator)
    g = f.limit_denominator(10 ** 7)
    if g.numerator and float(g) == x:
        return z3.Q(g.numerator, g.denominator)
    h = (1 / f).limit_denominator(10 ** 7)
    if h.numerator and float(1 / h) == x:
        h = 1 / h
        return z3.Q(h.numerator, h.denominator)
    return z3.Q(f.numerator, f.denominator)


def If_(c, a, b):
    if b_true(c):
        return a
    if b_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (bool,)) or isinstance(b, bool):
        a, b = zb(a), zb(b)
        if z3.is_true(a) and z3.is_false(b):
            return c
    elif isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return a
    return z3.If(c, a, b)


class Sym:
    __array_ufunc__ = None
    __array_priority__ = 1e6
    __hash__ = object.__hash__

    def __array__(self, *a, **k):
        raise Unsupported("symbolic value reached real numpy (%s)" % type(self).__name__)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        raise Unsupported("symbolic value used as a concrete index")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __repr__(self):
        return "<%s>" % type(self).__name__

    def __format__(self, spec):
        return "<symbolic>"

    __str__ = __repr__


def _is_unit(x):
    return isinstance(x, u.UnitBase)


def _bin(name, refl=False):
    def f(self, other):
        return binop(name, other, self) if refl else binop(name, self, other)
    return f


class Arith(Sym):
    __add__, __radd__ = _bin("add"), _bin("add", True)
    __sub__, __rsub__ = _bin("sub"), _bin("sub", True)
    __mul__, __rmul__ = _bin("mul"), _bin("mul", True)
    __truediv__, __rtruediv__ = _bin("div"), _bin("div", True)
    __floordiv__, __rfloordiv__ = _bin("floordiv"), _bin("floordiv", True)
    __mod__, __rmod__ = _bin("mod"), _bin("mod", True)
    __pow__, __rpow__ = _bin("pow"), _bin("pow", True)
    __lt__, __le__, __gt__, __ge__ = _bin("lt"), _bin("le"), _bin("gt"), _bin("ge")
    __eq__, __ne__ = _bin("eq"), _bin("ne")
    __and__, __rand__ = _bin("and"), _bin("and", True)
    __or__, __ror__ = _bin("or"), _bin("or", True)
    __xor__, __rxor__ = _bin("xor"), _bin("xor", True)

    def __neg__(self):
        return unop("neg", self)

    def __pos__(self):
        return self

    def __abs__(self):
        return unop("abs", self)

    def __invert__(self):
        return unop("not", self)

    def __matmul__(self, o):
        from . import nps
        return nps.np_shim.dot(self, o)

    def __rmatmul__(self, o):
        from . import nps
        return nps.np_shim.dot(o, self)


class Scalar(Arith):
    shape = ()
    ndim = 0
    size = 1
    isscalar = True

    def item(self):
        return self

    def squeeze(self):
        return self

    def copy(self):
        return self

    def astype(self, t, **k):
        return cast_scalar(self, kind_of_dtype(t))

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return {SInt: np.dtype(int), SReal: np.dtype(float), SBool: np.dtype(bool),
                SCplx: np.dtype(complex)}[type(self)]

    def __round__(self, n=None):
        return s_round(self, n)


class SBool(Scalar):
    def __init__(self, c):
        self.c = zb(c)

    def __bool__(self):
        return ctx().branch(self.c)


class SInt(Scalar):
    def __init__(self, e):
        self.e = e if isinstance(e, z3.ExprRef) else z3.IntVal(int(e))

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __mul__(self, o):
        return _repeat(o, self) if isinstance(o, (list, tuple, str)) else Scalar.__mul__(self, o)

    def __rmul__(self, o):
        return _repeat(o, self) if isinstance(o, (list, tuple, str)) else Scalar.__rmul__(self, o)

    def _split(self, o, k):
        """row (k = 0) or column (k = 1) when this counts the positions of a double loop row
        by row and o is the length of a row"""
        if isinstance(o, (SInt, int)) and not isinstance(o, bool):
            ks = ctx().loop_ks[-2:]
            if len(ks) == 2:
                d = z3.simplify(zi_(ks[0]) * zi_(o.e if isinstance(o, SInt) else o) + zi_(ks[1]) - self.e, som=True)
                if z3.is_int_value(d) and d.as_long() == 0:
                    return SInt(zi_(ks[k]))
        return None

    def __floordiv__(self, o):
        r = self._split(o, 0)
        return Scalar.__floordiv__(self, o) if r is None else r

    def __mod__(self, o):
        r = self._split(o, 1)
        return Scalar.__mod__(self, o) if r is None else r

    def __divmod__(self, o):
        return self // o, self % o

    @property
    def value(self):
        raise AttributeError("value")


def _repeat(l, n):
    """[x] * n: a sequence of n equal elements (usable as an array only)"""
    if not isinstance(l, list) or len(l) != 1:
        raise Unsupported("repetition of a sequence")
    v = lift(l[0])
    if not isinstance(v, Scalar):
        raise Unsupported("repetition of a sequence")
    n = n.e if ctx().branch(n.e > 0) else 0
    return SArr.new([n], lambda idx: v, "b" if isinstance(v, SBool) else "i" if isinstance(v, SInt) else "f")


class SReal(Scalar):
    __slots__ = ("v", "nan", "inf")

    def __init__(self, v, nan=False, inf=False):
        self.v = v if isinstance(v, z3.ExprRef) else rv(v)
        self.nan, self.inf = nan, inf

    def __bool__(self):
        return ctx().branch(Or_(self.nan, self.inf, self.v != 0))

    def is_integer(self):
        return SBool(And_(Not_(self.nan), Not_(self.inf), z3.IsInt(self.v)))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SReal(rv(0))

    def conj(self):
        return self

    # scalar "reductions"
    def max(self):
        return self

    min = sum = mean = max


class SCplx(Scalar):
    def __init__(self, re, im, absv=None):
        self.re, self.im, self.absv = to_real(re), to_real(im), absv

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conj(self):
        return SCplx(self.re, unop("neg", self.im), self.absv)


def is_num(x):
    return isinstance(x, (bool, int, float, complex, np.number, np.bool_))


def is_symbolic(x):
    return isinstance(x, Sym)


def lift(x):
    """number -> scalar symbolic value"""
    if isinstance(x, Scalar):
        return x
    if isinstance(x, (bool, np.bool_)):
        return SBool(bool(x))
    if isinstance(x, (int, np.integer)):
        return SInt(z3.IntVal(int(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return SReal(rv(0), nan=True)
        if x in (float("inf"), float("-inf")):
            return SReal(rv(1 if x > 0 else -1), inf=True)
        return SReal(nice(x))
    if isinstance(x, (complex, np.complexfloating)):
        return SCplx(lift(float(x.real)), lift(float(x.imag)))
    if isinstance(x, z3.BoolRef):
        return SBool(x)
    if isinstance(x, z3.ArithRef):
        return SInt(x) if x.is_int() else SReal(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise Unsupported("cannot lift %r" % type(x))


def to_real(x):
    x = lift(x)
    if isinstance(x, SReal):
        return x
    if isinstance(x, SInt):
        if z3.is_int_value(x.e):
            return SReal(z3.RealVal(x.e.as_long()))
        return SReal(z3.ToReal(x.e))
    if isinstance(x, SBool):
        return SReal(If_(x.c, rv(1), rv(0)))
    raise Unsupported("complex used as a real")


def to_int(x):
    x = lift(x)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(If_(x.c, z3.IntVal(1), z3.IntVal(0)))
    raise Unsupported("real used as an integer")


def to_bool(x):
    x = lift(x)
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return SBool(x.e != 0)
    if isinstance(x, SReal):
        return SBool(Or_(x.nan, x.inf, x.v != 0))
    raise Unsupported("complex used as a bool")


def trunc_int(x):
    """int(x): truncation towards zero"""
    x = lift(x)
    if isinstance(x, (SInt, SBool)):
        return to_int(x)
    if not b_false(Or_(x.nan, x.inf)):
        if ctx().branch(x.nan):
            raise ValueError("cannot convert float NaN to integer")
        if ctx().branch(x.inf):
            raise OverflowError("cannot convert float infinity to integer")
    v = z3.simplify(x.v)
    if z3.is_rational_value(v):
        f = v.as_fraction()
        return SInt(int(f))
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        return SInt(v.arg(0))
    d = ctx().decide(v >= 0)
    if d is True:
        return SInt(z3.ToInt(v))
    if d is False:
        return SInt(-z3.ToInt(-v))
    return SInt(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))


def s_floor(x):
    x = lift(x)
    if isinstance(x, (SInt, SBool)):
        return to_real(x)
    return SReal(z3.ToReal(z3.ToInt(x.v)), x.nan, x.inf)


def s_ceil(x):
    x = lift(x)
    if isinstance(x, (SInt, SBool)):
        return to_real(x)
    return SReal(z3.ToReal(-z3.ToInt(-x.v)), x.nan, x.inf)


def s_rint(x):
    """round half to even"""
    x = lift(x)
    if isinstance(x, (SInt, SBool)):
        return to_real(x)
    f = z3.ToInt(x.v)
    r = x.v - z3.ToReal(f)
    h = rv(0.5)
    k = z3.If(r < h, f, z3.If(r > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return SReal(z3.ToReal(k), x.nan, x.inf)


def s_round(x, n=None):
    if n not in (None, 0):
        raise Unsupported("round to digits")
    r = s_rint(x)
    if n is None:
        return trunc_int(r)
    return r


# ---------------------------------------------------------------------------
# scalar operations

def _finite(x):
    return b_false(x.nan) and b_false(x.inf)


def r_add(a, b):
    if b_false(a.inf) and b_false(b.inf):
        return SReal(a.v + b.v, Or_(a.nan, b.nan))
    opp = And_(a.inf, b.inf, zb((a.v > 0) != (b.v > 0)))
    return SReal(If_(a.inf, a.v, If_(b.inf, b.v, a.v + b.v)), Or_(a.nan, b.nan, opp),
                 And_(Or_(a.inf, b.inf), Not_(opp)))


def r_neg(a):
    return SReal(-a.v, a.nan, a.inf)


def r_mul(a, b):
    if b_false(a.inf) and b_false(b.inf):
        return SReal(a.v * b.v, Or_(a.nan, b.nan))
    bad = Or_(And_(a.inf, Not_(b.inf), b.v == 0), And_(b.inf, Not_(a.inf), a.v == 0))
    return SReal(a.v * b.v, Or_(a.nan, b.nan, bad), Or_(a.inf, b.inf))


def _sgn_copy(a):
    return a


def r_div(a, b):
    bz = b.v == 0
    v = z3.simplify(b.v)
    if z3.is_rational_value(v):
        zero = (v.as_fraction() == 0)
    else:
        d = ctx().decide(bz) if core.CUR is not None else None
        zero = bz if d is None else d
    if b_false(a.inf) and b_false(b.inf):
        if zero is False:
            return SReal(a.v / b.v, Or_(a.nan, b.nan))
        # x / 0: the sign of zero is taken positive
        return SReal(If_(zero, a.v, a.v / b.v), Or_(a.nan, b.nan, And_(zero, a.v == 0)),
                     And_(zero, a.v != 0))
    zero = And_(zero, Not_(b.inf))
    nan = Or_(a.nan, b.nan, And_(a.inf, b.inf), And_(zero, Not_(a.inf), a.v == 0))
    inf = And_(Not_(b.inf), Or_(a.inf, And_(zero, a.v != 0)))
    # sign of inf / finite: sign(a)*sign(b)
    val = If_(b.inf, rv(0), If_(zero, a.v, If_(a.inf, a.v * b.v, a.v / b.v)))
    return SReal(val, nan, inf)


def r_cmp(op, a, b):
    f = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge,
         "eq": operator.eq, "ne": operator.ne}[op]
    nn = Or_(a.nan, b.nan)
    if b_false(a.inf) and b_false(b.inf):
        c = f(a.v, b.v)
    else:
        # embed infinities as an ordered pair (class, value)
        ca = If_(a.inf, If_(a.v > 0, z3.IntVal(1), z3.IntVal(-1)), z3.IntVal(0))
        cb = If_(b.inf, If_(b.v > 0, z3.IntVal(1), z3.IntVal(-1)), z3.IntVal(0))
        same = And_(zb(ca == cb), zb(ca == 0))
        c = If_(same, f(a.v, b.v), f(ca, cb))
    if op == "ne":
        return SBool(Or_(nn, c))
    return SBool(And_(Not_(nn), c))


def r_pow(a, b):
    bv = z3.simplify(b.v)
    if z3.is_rational_value(bv):
        f = bv.as_fraction()
        if f.denominator == 1 and 0 <= f.numerator <= 8:
            n = f.numerator
            if n == 0:
                return SReal(rv(1))
            r = a
            for _ in range(n - 1):
                r = r_mul(r, a)
            return r
        if f.denominator == 1 and -8 <= f.numerator < 0:
            return r_div(SReal(rv(1)), r_pow(a, SReal(-bv)))
        if f == Fraction(1, 2):
            return s_sqrt(a)
        if f == Fraction(-1, 2):
            return r_div(SReal(rv(1)), s_sqrt(a))
        if f.denominator == 2 and 0 < f.numerator < 8:
            return r_mul(s_sqrt(a), r_pow(a, SReal(rv(f.numerator // 2))))
    av = z3.simplify(a.v)
    if z3.is_rational_value(av) and av.as_fraction() == 10 and _finite(a):
        return SReal(R1["POW10"](b.v), b.nan, And_(b.inf, b.v > 0)) if b_false(b.inf) else _unsup("10**inf")
    if not (b_false(a.inf) and b_false(b.inf)):
        raise Unsupported("pow with infinities")
    v = POW(a.v, b.v)
    # nan ** 0 and 1 ** nan are 1
    unit = Or_(And_(Not_(b.nan), b.v == 0), And_(Not_(a.nan), a.v == 1))
    missing = Or_(a.nan, b.nan)
    neg = _neg(a.v)
    if not b_false(neg):
        neg = And_(neg, Not_(z3.IsInt(b.v)))
    if b_false(missing):
        nan = neg
    else:
        nan = Or_(And_(missing, Not_(unit)), And_(Not_(missing), neg))
        v = If_(And_(missing, unit), rv(1), v)
    zero = And_(a.v == 0, b.v < 0)
    d = ctx().decide_quick(zero) if core.CUR is not None else None
    if d is False:
        return SReal(v, nan)
    zero = And_(zero, Not_(missing))
    return SReal(If_(zero, rv(1), v), nan, zero)


def _unsup(m):
    raise Unsupported(m)


def s_sqrt(a):
    if isinstance(a, SCplx):
        # the principal root: some complex number whose square is a
        re, im = [z3.Function("CSQRT_" + s, Rl, Rl, Rl)(canon(a.re.v), canon(a.im.v)) for s in ("RE", "IM")]
        bad = Or_(a.re.nan, a.im.nan, a.re.inf, a.im.inf)
        return SCplx(SReal(re, bad), SReal(im, bad))
    a = to_real(a)
    v = z3.simplify(a.v)
    if z3.is_rational_value(v):
        f = v.as_fraction()
        if f == 0 or f == 1:
            return SReal(v, a.nan, a.inf)
    return SReal(R1["SQRT"](a.v), Or_(a.nan, _neg(a.v)), a.inf)


def _neg(v):
    """v < 0 unless clearly not"""
    if core.CUR is not None:
        d = ctx().decide_quick(v < 0)
        if d is not None:
            return d
    return v < 0


_canon = {}


def canon(e):
    """polynomial normal form of an argument (divisions as products with
    reciprocals; the value of a division by zero is never used)"""
    i = e.get_id()
    if i in _canon and _canon[i][0].eq(e):
        return _canon[i][1]

    def inv(d):
        if z3.is_rational_value(d):
            return z3.Q(d.as_fraction().denominator, d.as_fraction().numerator) if d.as_fraction() != 0 else 1 / d
        if z3.is_mul(d):
            out = None
            for c in d.children():
                out = inv(c) if out is None else out * inv(c)
            return out
        return rv(1) / d

    def go(x, n=0):
        if not z3.is_app(x) or not z3.is_real(x) or n > 40:
            return x
        k = x.decl().kind()
        ch = x.children()
        if k == z3.Z3_OP_DIV:
            return go(ch[0], n + 1) * inv(z3.simplify(go(ch[1], n + 1)))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER):
            return x.decl()(*[go(c, n + 1) for c in ch]) if k != z3.Z3_OP_POWER else x
        return x
    try:
        r = z3.simplify(go(z3.simplify(e)), som=True, som_blowup=30)
    except z3.Z3Exception:
        r = z3.simplify(e)
    _canon[i] = (e, r)
    return r


def s_log(name):
    def f(a):
        a = to_real(a)
        v = z3.simplify(a.v)
        if z3.is_rational_value(v) and v.as_fraction() == 1 and _finite(a):
            return SReal(rv(0))
        pos = True if core.CUR is not None and ctx().decide(a.v > 0) is True else None
        if pos and _finite(a):
            return SReal(R1[name](canon(a.v)))
        z = And_(Not_(a.inf), a.v == 0)
        return SReal(If_(a.inf, a.v, If_(z, rv(-1), R1[name](canon(a.v)))), Or_(a.nan, a.v < 0),
                     Or_(And_(a.inf, a.v > 0), z))
    return f


def s_trans(name):
    def f(a):
        if isinstance(a, SCplx):
            if name == "EXP":
                e = s_trans("EXP")(a.re)
                return SCplx(r_mul(e, s_trans("COS")(a.im)), r_mul(e, s_trans("SIN")(a.im)), None)
            raise Unsupported("complex " + name)
        a = to_real(a)
        v = z3.simplify(a.v)
        if z3.is_rational_value(v) and v.as_fraction() == 0 and _finite(a):
            return SReal(rv({"EXP": 1, "COS": 1, "POW10": 1}.get(name, 0)))
        if not b_false(a.inf):
            if name in ("COS", "SIN", "TAN"):
                return SReal(R1[name](canon(a.v)), Or_(a.nan, a.inf))
            if name in ("EXP", "POW10"):
                neg = And_(a.inf, a.v < 0)
                return SReal(If_(neg, rv(0), If_(a.inf, rv(1), R1[name](canon(a.v)))), a.nan,
                             And_(a.inf, a.v > 0))
            raise Unsupported(name + " of an infinity")
        return SReal(R1[name](canon(a.v)), a.nan)
    return f


def s_abs(a):
    a = lift(a)
    if isinstance(a, SCplx):
        if a.absv is not None:
            return SReal(a.absv, Or_(a.re.nan, a.im.nan), Or_(a.re.inf, a.im.inf))
        s = r_add(r_mul(a.re, a.re), r_mul(a.im, a.im))
        return SReal(R1["SQRT"](s.v), s.nan, s.inf)
    if isinstance(a, SReal):
        return SReal(If_(zb(a.v >= 0), a.v, -a.v), a.nan, a.inf)
    if isinstance(a, SInt):
        return SInt(If_(zb(a.e >= 0), a.e, -a.e))
    return a


def rank(x):
    return {SBool: 0, SInt: 1, SReal: 2, SCplx: 3}[type(x)]


CMP = ("lt", "le", "gt", "ge", "eq", "ne")


def s_bin(op, a, b):
    a, b = lift(a), lift(b)
    if op in ("and", "or", "xor"):
        if isinstance(a, SBool) and isinstance(b, SBool):
            if op == "and":
                return SBool(And_(a.c, b.c))
            if op == "or":
                return SBool(Or_(a.c, b.c))
            return SBool(z3.Xor(a.c, b.c))
        raise Unsupported("bitwise operation on numbers")
    r = max(rank(a), rank(b))
    if op in CMP:
        if r == 3:
            if op not in ("eq", "ne"):
                raise Unsupported("complex ordering")
            a, b = to_cplx(a), to_cplx(b)
            e = And_(r_cmp("eq", a.re, b.re).c, r_cmp("eq", a.im, b.im).c)
            return SBool(e if op == "eq" else Not_(e))
        if r == 0 and op in ("eq", "ne"):
            return SBool(a.c == b.c if op == "eq" else a.c != b.c)
        if r <= 1:
            f = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge,
                 "eq": operator.eq, "ne": operator.ne}[op]
            return SBool(f(to_int(a).e, to_int(b).e))
        return r_cmp(op, to_real(a), to_real(b))
    if op == "div" and r <= 1:
        return r_div(to_real(a), to_real(b))
    if r == 0 and op == "add":
        return SBool(Or_(a.c, b.c)) if False else s_bin("add", to_int(a), to_int(b))
    if r <= 1:
        x, y = to_int(a).e, to_int(b).e
        if op == "add":
            return SInt(x + y)
        if op == "sub":
            return SInt(x - y)
        if op == "mul":
            return SInt(x * y)
        if op in ("floordiv", "mod"):
            d = ctx().decide(y > 0)
            if d is not True:
                if ctx().branch(y == 0):
                    raise ZeroDivisionError("integer division or modulo by zero")
                if not ctx().branch(y > 0):
                    raise Unsupported("division by a negative integer")
            return SInt(x / y) if op == "floordiv" else SInt(x % y)
        if op == "pow":
            yv = z3.simplify(y)
            if z3.is_int_value(yv) and 0 <= yv.as_long() <= 8:
                n = yv.as_long()
                res = z3.IntVal(1)
                for _ in range(n):
                    res = res * x
                return SInt(z3.simplify(res) if n < 2 else res)
            return r_pow(to_real(a), to_real(b))
    if r == 3:
        a, b = to_cplx(a), to_cplx(b)
        if op == "add":
            return SCplx(r_add(a.re, b.re), r_add(a.im, b.im))
        if op == "sub":
            return SCplx(r_add(a.re, r_neg(b.re)), r_add(a.im, r_neg(b.im)))
        if op == "mul":
            if b_is_zero(b.im):
                return SCplx(r_mul(a.re, b.re), r_mul(a.im, b.re))
            if b_is_zero(a.im):
                return SCplx(r_mul(b.re, a.re), r_mul(b.im, a.re))
            return SCplx(r_add(r_mul(a.re, b.re), r_neg(r_mul(a.im, b.im))),
                         r_add(r_mul(a.re, b.im), r_mul(a.im, b.re)))
        if op == "div" and b_is_zero(b.im):
            return SCplx(r_div(a.re, b.re), r_div(a.im, b.re))
        if op == "div":
            m = s_bin("mul", a, SCplx(b.re, r_neg(b.im)))
            d = r_add(r_mul(b.re, b.re), r_mul(b.im, b.im))
            return SCplx(r_div(m.re, d), r_div(m.im, d))
        if op == "pow":
            bv = z3.simplify(b.re.v)
            if b_is_zero(b.im) and z3.is_rational_value(bv) and bv.as_fraction() == 2:
                return s_bin("mul", a, a)
        raise Unsupported("complex " + op)
    a, b = to_real(a), to_real(b)
    if op == "add":
        return r_add(a, b)
    if op == "sub":
        return r_add(a, r_neg(b))
    if op == "mul":
        return r_mul(a, b)
    if op == "div":
        return r_div(a, b)
    if op == "pow":
        return r_pow(a, b)
    if op == "floordiv":
        q = r_div(a, b)
        return SReal(z3.ToReal(z3.ToInt(q.v)), q.nan, q.inf)
    if op == "mod":
        q = r_div(a, b)
        if not _finite(q):
            raise Unsupported("real modulo with special values")
        return SReal(a.v - b.v * z3.ToReal(z3.ToInt(q.v)))
    raise Unsupported("operator " + op)


def b_is_zero(x):
    return _finite(x) and z3.is_rational_value(z3.simplify(x.v)) and \
        z3.simplify(x.v).as_fraction() == 0


def to_cplx(x):
    x = lift(x)
    return x if isinstance(x, SCplx) else SCplx(to_real(x), SReal(rv(0)))


def s_un(op, a):
    a = lift(a)
    if op == "neg":
        if isinstance(a, SCplx):
            return SCplx(r_neg(a.re), r_neg(a.im), a.absv)
        return SInt(-to_int(a).e) if rank(a) <= 1 else r_neg(a)
    if op == "abs":
        return s_abs(a)
    if op == "not":
        if isinstance(a, SBool):
            return SBool(Not_(a.c))
        if isinstance(a, SInt):
            return SInt(-a.e - 1)
        raise TypeError("ufunc 'invert' not supported for the input types")
    return UN[op](a)


def s_isnan(a):
    a = lift(a)
    if isinstance(a, SCplx):
        return SBool(Or_(a.re.nan, a.im.nan))
    return SBool(a.nan if isinstance(a, SReal) else False)


def s_isfinite(a):
    a = lift(a)
    if isinstance(a, SCplx):
        return SBool(And_(*[Not_(x) for x in (a.re.nan, a.im.nan, a.re.inf, a.im.inf)]))
    return SBool(And_(Not_(a.nan), Not_(a.inf)) if isinstance(a, SReal) else True)


def s_isinf(a):
    a = lift(a)
    return SBool(And_(a.inf, Not_(a.nan)) if isinstance(a, SReal) else False)


def s_sign(a):
    a = lift(a)
    if isinstance(a, SInt):
        return SInt(z3.If(a.e > 0, 1, z3.If(a.e < 0, -1, 0)))
    a = to_real(a)
    return SReal(z3.If(a.v > 0, rv(1), z3.If(a.v < 0, rv(-1), rv(0))), a.nan)


def s_conj(a):
    a = lift(a)
    return a.conj() if isinstance(a, SCplx) else a


UN = {"sqrt": s_sqrt, "log": s_log("LN"), "log10": s_log("LOG10"), "exp": s_trans("EXP"),
      "cos": s_trans("COS"), "sin": s_trans("SIN"), "tan": s_trans("TAN"), "atan": s_trans("ATAN"),
      "floor": s_floor, "ceil": s_ceil, "rint": s_rint, "isnan": s_isnan, "isfinite": s_isfinite,
      "isinf": s_isinf, "sign": s_sign, "conj": s_conj,
      "real": lambda a: a.re if isinstance(a, SCplx) else a,
      "imag": lambda a: a.im if isinstance(a, SCplx) else SReal(rv(0)),
      "notl": lambda a: SBool(Not_(to_bool(a).c))}


def s_merge(c, a, b):
    """If(c, a, b) on scalars; c a z3 Bool or python bool"""
    if b_true(c):
        return a
    if b_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, SQuantity) or isinstance(b, SQuantity):
        raise Unsupported("merge of quantities")
    a, b = lift(a), lift(b)
    r = max(rank(a), rank(b))
    if r == 0:
        return SBool(If_(c, a.c, b.c))
    if r == 1:
        return SInt(If_(c, to_int(a).e, to_int(b).e))
    if r == 2:
        a, b = to_real(a), to_real(b)
        return SReal(If_(c, a.v, b.v), If_(c, a.nan, b.nan), If_(c, a.inf, b.inf))
    a, b = to_cplx(a), to_cplx(b)
    ab = None
    if a.absv is not None and b.absv is not None:
        ab = If_(c, a.absv, b.absv)
    return SCplx(s_merge(c, a.re, b.re), s_merge(c, a.im, b.im), ab)


def s_max(a, b):
    a, b = lift(a), lift(b)
    if rank(a) <= 1 and rank(b) <= 1:
        a, b = to_int(a), to_int(b)
        return SInt(If_(zb(a.e >= b.e), a.e, b.e))
    a, b = to_real(a), to_real(b)
    m = s_merge(r_cmp("ge", a, b).c, a, b)
    return SReal(m.v, Or_(a.nan, b.nan), m.inf)


def s_min(a, b):
    a, b = lift(a), lift(b)
    if rank(a) <= 1 and rank(b) <= 1:
        a, b = to_int(a), to_int(b)
        return SInt(If_(zb(a.e <= b.e), a.e, b.e))
    a, b = to_real(a), to_real(b)
    m = s_merge(r_cmp("le", a, b).c, a, b)
    return SReal(m.v, Or_(a.nan, b.nan), m.inf)


def cast_scalar(x, kind):
    x = lift(x)
    if kind == "b":
        return to_bool(x)
    if kind == "i":
        return trunc_int_total(x) if isinstance(x, SReal) else to_int(x)
    if kind == "f":
        return to_real(x)
    if kind == "c":
        return to_cplx(x)
    return x


def trunc_int_total(x):
    v = z3.simplify(x.v)
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        return SInt(v.arg(0))
    return SInt(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))


def kind_of_dtype(t):
    if t is None:
        return None
    if isinstance(t, str) and t in "bifc" and len(t) == 1:
        return t
    n = getattr(t, "__name__", "")
    if n.startswith("vc_"):
        t = {"vc_int": int, "vc_float": float, "vc_bool": bool, "vc_complex": complex}.get(n, t)
    k = np.dtype(t).kind
    return {"u": "i", "i": "i", "f": "f", "b": "b", "c": "c"}.get(k) or _unsup("dtype %r" % (t,))


def kind_of(x):
    x = lift(x)
    return {SBool: "b", SInt: "i", SReal: "f", SCplx: "c"}[type(x)]


DT = {"b": np.dtype(bool), "i": np.dtype(int), "f": np.dtype(float), "c": np.dtype(complex)}


def parts(x):
    """z3 terms that identify a scalar value"""
    x = lift(x)
    if isinstance(x, SBool):
        return [x.c]
    if isinstance(x, SInt):
        return [x.e]
    if isinstance(x, SReal):
        return [x.v, zb(x.nan), zb(x.inf)]
    return parts(x.re) + parts(x.im)


def same(a, b):
    """z3 Bool: a and b are the same value (nan equals nan)"""
    a, b = lift(a), lift(b)
    r = max(rank(a), rank(b))
    if r == 0:
        return zb(a.c == b.c)
    if r == 1:
        return zb(to_int(a).e == to_int(b).e)
    if r == 2:
        a, b = to_real(a), to_real(b)
        return zb(And_(zb(zb(a.nan) == zb(b.nan)),
                       Or_(a.nan, And_(zb(zb(a.inf) == zb(b.inf)),
                                       Or_(And_(a.inf, zb((a.v > 0) == (b.v > 0))),
                                           And_(Not_(a.inf), zb(a.v == b.v)))))))
    a, b = to_cplx(a), to_cplx(b)
    return z3.And(same(a.re, b.re), same(a.im, b.im))


# ---------------------------------------------------------------------------
# arrays

class Buf:
    """Storage of an array: element function over index tuples."""

    def __init__(self, dims, fn, kind, name=None, owner=None):
        self.dims, self.kind, self.name, self.owner = tuple(dims), kind, name, owner
        self.set_fn(fn)
        self.writes = 0
        self.flat_view = False
        if core.CUR is not None:
            core.CUR.bufs.append(self)

    def set_fn(self, fn):
        cache = {}

        def memo(idx, fn=fn, cache=cache):
            k = tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx)
            r = cache.get(k)
            if r is None:
                r = cache[k] = (fn(idx), idx)
            return r[0]
        self.fn = memo

    def write(self, cond, val):
        """new contents: where cond(idx) then val(idx) else old; kind is kept"""
        if self.flat_view:
            raise Unsupported("write through a flattened view")
        self.writes += 1
        old = self.fn
        kind = self.kind

        def fn(idx):
            c = cond(idx)
            if b_false(c):
                return old(idx)
            if not b_true(c):
                c = z3.simplify(zb(c))
                if z3.is_false(c):
                    return old(idx)
                if z3.is_true(c):
                    c = True
            v = cast_scalar(val(idx), kind)
            return v if c is True else s_merge(c, v, old(idx))
        self.set_fn(fn)


def _add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return zi(a + b)


def _mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if b == 1 if isinstance(b, int) else False:
        return a
    return zi(a * b)


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    return ctx().branch(zi_(a) == zi_(b))


def zi_(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def prod_dims(dims):
    n = 1
    for d in dims:
        n = _mul(n, d) if not isinstance(n, int) or n != 1 else d
    return n


def wrap_int(e):
    """python int or SInt from a dim"""
    e = zi(e)
    return e if isinstance(e, int) else SInt(e)


class SArr(Arith):
    """View of a Buf.  maps: per buffer axis ('fix', e) or ('ax', k, off, step)."""

    isscalar = False

    def __init__(self, buf, shape=None, maps=None):
        self.buf = buf
        self._shape = tuple(shape) if shape is not None else buf.dims
        self.maps = maps if maps is not None else tuple(("ax", i, 0, 1) for i in range(len(buf.dims)))

    @staticmethod
    def new(dims, fn, kind, name=None, owner=None):
        return SArr(Buf([as_dim(d) for d in dims], fn, kind, name, owner))

    # -- structure
    @property
    def shape(self):
        return tuple(wrap_int(d) for d in self._shape)

    @shape.setter
    def shape(self, v):
        raise Unsupported("assignment to shape")

    @property
    def dims(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return wrap_int(prod_dims(self._shape))

    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        return DT[self.buf.kind]

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        inv = {a: i for i, a in enumerate(axes)}
        maps = tuple(m if m[0] == "fix" else ("ax", inv[m[1]], m[2], m[3]) for m in self.maps)
        return SArr(self.buf, [self._shape[a] for a in axes], maps)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        if isinstance(self._shape[0], int):
            return self._shape[0]
        raise Unsupported("len() of a symbolic length")

    def mapidx(self, idx):
        out = []
        for m in self.maps:
            if m[0] == "fix":
                out.append(m[1])
            else:
                _, k, off, step = m
                out.append(_add(off, _mul(idx[k], step)))
        return tuple(out)

    def get(self, idx):
        return self.buf.fn(self.mapidx(tuple(idx)))

    def snap(self):
        """element function frozen at this moment"""
        fn, maps = self.buf.fn, self.maps
        if maps == tuple(("ax", i, 0, 1) for i in range(len(maps))):
            return fn
        mi = self.mapidx
        return lambda idx: fn(mi(tuple(idx)))

    def copy(self, order=None):
        return SArr.new(self._shape, self.snap(), self.kind)

    def astype(self, t, copy=True, **k):
        kd = kind_of_dtype(t)
        f = self.snap()
        return SArr.new(self._shape, lambda idx: cast_scalar(f(idx), kd), kd)

    def view(self, *a, **k):
        return SArr(self.buf, self._shape, self.maps)

    def item(self, *a):
        if not self._shape:
            return self.get(())
        if all(d == 1 for d in self._shape if isinstance(d, int)) and all(isinstance(d, int) for d in self._shape):
            return self.get((0,) * self.ndim)
        raise Unsupported("item()")

    def tolist(self):
        if all(isinstance(d, int) for d in self._shape) and self.ndim == 1:
            return [self.get((i,)) for i in range(self._shape[0])]
        raise Unsupported("tolist of a symbolic array")

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        if isinstance(self._shape[0], int):
            return iter([self[i] for i in range(self._shape[0])])
        raise Unsupported("iteration over a symbolic-length array outside a loop")

    def __bool__(self):
        if all(isinstance(d, int) for d in self._shape) and prod_dims(self._shape) == 1:
            return bool(to_bool(self.get((0,) * self.ndim)))
        if not self._shape:
            return bool(to_bool(self.get(())))
        n = prod_dims(self._shape)
        if not isinstance(n, int) and ctx().branch(n == 1):
            return bool(to_bool(self.get((0,) * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def squeeze(self, axis=None):
        keep, fixed = [], {}
        for i, d in enumerate(self._shape):
            one = d == 1 if isinstance(d, int) else ctx().branch(d == 1)
            if axis is not None and i not in (axis if isinstance(axis, tuple) else (axis,)):
                one = False
            if not one:
                keep.append(i)
        inv = {a: i for i, a in enumerate(keep)}
        maps = tuple(m if m[0] == "fix" else
                     (("ax", inv[m[1]], m[2], m[3]) if m[1] in inv else ("fix", m[2]))
                     for m in self.maps)
        return SArr(self.buf, [self._shape[a] for a in keep], maps)

    def ravel(self, order=None):
        return self.reshape(-1)

    def flatten(self, order=None):
        return self.reshape(-1, _copy=True)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [as_dim(s) for s in shape]
        if self.ndim == 1 and list(shape) == [-1]:
            return SArr(self.buf, self._shape, self.maps)
        if len(shape) == self.ndim and all(not isinstance(s, int) or s != -1 for s in shape) and \
                all((isinstance(a, int) and isinstance(b, int) and a == b) or
                    (not isinstance(a, int) and not isinstance(b, int) and a.eq(b))
                    for a, b in zip(shape, self._shape)):
            return SArr(self.buf, self._shape, self.maps)
        # insertion of length-1 axes
        core_new = [s for s in shape if not (isinstance(s, int) and s == 1)]
        core_old = [s for s in self._shape if not (isinstance(s, int) and s == 1)]
        if len(core_new) == len(core_old) and sum(1 for s in core_new if isinstance(s, int) and s == -1) <= 1:
            ok = all((isinstance(a, int) and a == -1) or
                     (a == b if isinstance(a, int) and isinstance(b, int) else
                      (not isinstance(a, int) and not isinstance(b, int) and a.eq(b)))
                     for a, b in zip(core_new, core_old))
            if ok:
                key, j = [], 0
                old_ax = [i for i, s in enumerate(self._shape) if not (isinstance(s, int) and s == 1)]
                f = self.snap()
                new_ax = [i for i, s in enumerate(shape) if not (isinstance(s, int) and s == 1)]
                nshape = [1] * len(shape)
                for a, b in zip(new_ax, old_ax):
                    nshape[a] = self._shape[b]
                nd = self.ndim
                inv = dict(zip(old_ax, new_ax))
                maps = tuple(m if m[0] == "fix" else
                             (("ax", inv[m[1]], m[2], m[3]) if m[1] in inv else ("fix", m[2]))
                             for m in self.maps)
                return SArr(self.buf, nshape, maps)
        lead = len(shape) - 1
        if shape and isinstance(shape[-1], int) and shape[-1] == -1 and lead < self.ndim and all(
                (a == b if isinstance(a, int) and isinstance(b, int) else
                 (not isinstance(a, int) and not isinstance(b, int) and a.eq(b)))
                for a, b in zip(shape[:-1], self._shape)):
            # flattening of the last axes: row-major, as a copy (a write to the flat
            # view is not tracked, and not supported)
            f, head, dims = self.snap(), self._shape[:lead], self._shape[lead:]

            def fn(idx):
                k, out = idx[lead], []
                for d in dims[:0:-1]:
                    if isinstance(k, int) and isinstance(d, int):
                        out.append(k % d)
                        k = k // d
                    else:
                        out.append(zi(zi_(k) % zi_(d)))
                        k = zi(zi_(k) / zi_(d))
                out.append(k)
                return f(tuple(idx[:lead]) + tuple(out[::-1]))
            a = SArr.new(list(head) + [prod_dims(dims)], fn, self.kind)
            if not lead:
                a.flat_of = self
            a.buf.flat_view = not kw.get("_copy")
            return a
        fo = getattr(self, "flat_of", None)
        if fo is not None and len(shape) == fo.ndim and all(
                (a == b if isinstance(a, int) and isinstance(b, int) else
                 (not isinstance(a, int) and not isinstance(b, int) and a.eq(b)))
                for a, b in zip(shape, fo._shape)):
            return SArr(fo.buf, fo._shape, fo.maps)
        raise Unsupported("reshape %s -> %s" % (self._shape, shape))

    # -- indexing
    def _axis_index(self, k, d):
        """normalised non-negative index of an integer key; raises IndexError"""
        k = zi(k)
        if isinstance(k, int) and isinstance(d, int):
            if not -d <= k < d:
                raise IndexError("index %d is out of bounds" % k)
            return k % d
        if isinstance(k, int):
            if k >= 0:
                if not _dtrue(zi_(d) > k):
                    raise IndexError("index out of bounds")
                return k
            if not _dtrue(zi_(d) >= -k):
                raise IndexError("index out of bounds")
            return zi(d + k)
        nn = ctx().decide(k >= 0)
        if nn is True:
            e = k
        elif nn is False:
            e = zi(k + d)
        else:
            e = k if ctx().branch(k >= 0) else zi(k + d)
        if not _dtrue(z3.And(zi_(e) >= 0, zi_(e) < d)):
            raise IndexError("index out of bounds")
        return e

    def _slice(self, s, d):
        """(offset, step, length) of a slice over an axis of length d"""
        step = 1 if s.step is None else s.step
        if not isinstance(step, (int, np.integer)):
            raise Unsupported("symbolic slice step")
        step = int(step)

        def bound(x, default, clip_lo, clip_hi):
            if x is None:
                return default
            if isinstance(x, SReal) or isinstance(x, float):
                raise TypeError("slice indices must be integers")
            x = zi(x)
            if isinstance(x, int) and isinstance(d, int):
                if x < 0:
                    x += d
                return min(max(x, clip_lo), clip_hi)
            if isinstance(x, int):
                e = x if x >= 0 else zi(d + x)
            else:
                sg = ctx().decide(x >= 0)
                if sg is None:
                    sg = ctx().branch(x >= 0)
                e = x if sg else zi(x + d)
            # clip
            ze, lo, hi = zi_(e), zi_(clip_lo), zi_(clip_hi)
            if not _dtrue_soft(ze >= lo):
                e = lo if not ctx().branch(ze >= lo) else e
            ze = zi_(e)
            if not _dtrue_soft(ze <= hi):
                e = hi if not ctx().branch(ze <= hi) else e
            return zi(e)
        if step > 0:
            a = bound(s.start, 0, 0, d)
            b = bound(s.stop, d, 0, d)
            n = _add(b, _mul(a, -1))
            if step != 1:
                n = (n + step - 1) // step if isinstance(n, int) else zi((n + step - 1) / step)
        else:
            dm1 = _add(d, -1)
            a = bound(s.start, dm1, -1, dm1)
            b = -1 if s.stop is None else bound(s.stop, -1, -1, dm1)
            n = _add(a, _mul(b, -1))
            if step != -1:
                n = (n - step - 1) // (-step) if isinstance(n, int) else zi((n + (-step) - 1) / (-step))
        if isinstance(n, int):
            n = max(n, 0)
        elif not _dtrue_soft(n >= 0):
            n = n if ctx().branch(n >= 0) else 0
        return a, step, n

    def _expand_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n_real = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, (SArr,)) and k.kind == "b":
                n_real += k.ndim
            elif isinstance(k, np.ndarray) and k.dtype == bool:
                n_real += k.ndim
            else:
                n_real += 1
        if any(k is Ellipsis for k in key):
            i = [n for n, k in enumerate(key) if k is Ellipsis][0]
            key[i:i + 1] = [slice(None)] * (self.ndim - n_real)
        else:
            key += [slice(None)] * (self.ndim - n_real)
        if sum(1 for k in key if k is not None) > self.ndim and not any(
                isinstance(k, (SArr, np.ndarray)) for k in key):
            raise IndexError("too many indices for array")
        return key

    def _basic(self, key):
        """view for a basic key, or None"""
        for k in key:
            if not (k is None or isinstance(k, slice) or isinstance(k, (int, np.integer)) or
                    isinstance(k, SInt)):
                return None
        shape, rep, ax = [], {}, 0
        for k in key:
            if k is None:
                shape.append(1)
            elif isinstance(k, slice):
                a, st, n = self._slice(k, self._shape[ax])
                rep[ax] = ("ax", len(shape), a, st)
                shape.append(n)
                ax += 1
            else:
                rep[ax] = ("fix", self._axis_index(k, self._shape[ax]))
                ax += 1
        maps = []
        for m in self.maps:
            if m[0] == "fix":
                maps.append(m)
            else:
                _, k, off, step = m
                r = rep[k]
                if r[0] == "fix":
                    maps.append(("fix", _add(off, _mul(r[1], step))))
                else:
                    maps.append(("ax", r[1], _add(off, _mul(r[2], step)), r[3] * step))
        return SArr(self.buf, shape, tuple(maps))

    def __getitem__(self, key):
        if isinstance(key, SSel):
            raise Unsupported("indexing with a selection")
        if isinstance(key, list):
            key = np.asarray(key) if not any(is_symbolic(k) for k in key) else _unsup("list index")
        if isinstance(key, tuple) and any(isinstance(k, list) for k in key):
            key = tuple(np.asarray(k) if isinstance(k, list) else k for k in key)
        m = _mask_key(key)
        if m is not None and m.ndim == self.ndim:
            return SSel(self._shape, self.snap(), m.snap(), self.kind)
        key = self._expand_key(key)
        v = self._basic(key)
        if v is not None:
            if v.ndim == 0 and self.ndim > 0:
                return v.get(())
            return v
        return self._gather(key)

    def _gather(self, key):
        arrs = [k for k in key if isinstance(k, (SArr, np.ndarray))]
        if any(isinstance(k, SSel) for k in key):
            raise Unsupported("index by selection")
        ints = [arr(k) for k in arrs]
        if any(k.kind == "b" for k in ints):
            if len(key) == self.ndim and len(arrs) == 1 and self.ndim >= 1:
                # boolean selection along one axis: 2-D array[mask, :] etc.
                raise Unsupported("boolean index along one axis")
            raise Unsupported("mixed boolean index")
        dims = broadcast_dims([k._shape for k in ints])
        getters = [bget(k, len(dims), dims) for k in ints]
        shape, plan, pos, ax = [], [], None, 0
        gi = 0
        for k in key:
            if k is None:
                raise Unsupported("newaxis with fancy index")
            if isinstance(k, (SArr, np.ndarray)):
                if pos is None:
                    pos = len(shape)
                    shape += list(dims)
                plan.append(("arr", gi, ax))
                gi += 1
            elif isinstance(k, slice):
                a, st, n = self._slice(k, self._shape[ax])
                plan.append(("sl", len(shape), a, st))
                shape.append(n)
            else:
                plan.append(("fix", self._axis_index(k, self._shape[ax])))
            ax += 1
        f, nd = self.snap(), len(dims)
        full = self._shape

        def fn(idx):
            out = []
            for p in plan:
                if p[0] == "fix":
                    out.append(p[1])
                elif p[0] == "sl":
                    out.append(_add(p[2], _mul(idx[p[1]], p[3])))
                else:
                    e = zi(to_int(getters[p[1]](idx[pos:pos + nd])))
                    d = full[p[2]]
                    if isinstance(e, int):
                        e = e if e >= 0 else _add(e, d)
                    elif ctx().decide_quick(e >= 0) is not True:
                        e = zi(z3.If(e >= 0, e, e + d))
                    out.append(e)
            return f(tuple(out))
        return SArr.new(shape, fn, self.kind)

    def __setitem__(self, key, val):
        if isinstance(val, (list, tuple)):
            val = arr(val)
        if isinstance(val, SQuantity):
            raise Unsupported("quantity stored into a plain array")
        if isinstance(key, (list, np.ndarray)) and len(key) <= 64 and not any(is_symbolic(k) for k in key):
            known = np.asarray(key)
            if known.ndim == 1 and known.dtype.kind == "b":
                if self._shape[0] != known.size:
                    raise Unsupported("mask of another length") if not isinstance(self._shape[0], int) else IndexError("boolean index did not match")
                known = np.flatnonzero(known)
            if known.ndim == 1 and known.dtype.kind in "iu":
                vals = arr(val) if isinstance(val, (SArr, np.ndarray)) else None
                if vals is not None and vals.ndim == self.ndim and not b_true(_eq(vals._shape[0], known.size)):
                    raise Unsupported("positions set to values of another number")
                for j, k in enumerate(known.tolist()):
                    self[k] = vals[j] if vals is not None and vals.ndim == self.ndim else val
                return
        m = _mask_key(key)
        if m is not None and m.ndim == self.ndim:
            same_dims(m._shape, self._shape)
            mf = m.snap()
            if isinstance(val, SSel):
                if not val.same_mask(mf):
                    raise Unsupported("assignment of a selection under another mask")
                vf = val.fn
            elif isinstance(val, SArr) and val.ndim > 0:
                raise Unsupported("array assigned to a mask")
            else:
                s = val.get(()) if isinstance(val, SArr) else lift(val)
                vf = lambda idx: s
            self._write(lambda idx: to_bool(mf(idx)).c, vf)
            return
        v = self._basic(self._expand_key(key))
        if v is None:
            # contents no longer known: reading them is outside the verifier's reach
            self.buf.set_fn(lost_contents(self.buf))
            self.buf.writes += 1
            return
        v._assign(val)

    def _assign(self, val):
        if isinstance(val, SSel):
            raise Unsupported("assignment of a selection to a slice")
        if isinstance(val, (SArr, np.ndarray)) and not np.isscalar(val):
            a = arr(val)
            while a.ndim > self.ndim and a._shape[0] == 1 and isinstance(a._shape[0], int):
                a = a[0] if a.ndim > 1 else arr(a.get((0,)))     # leading axes of length one are dropped
            dims = broadcast_dims([a._shape, self._shape])
            if len(dims) != self.ndim:
                raise ValueError("could not broadcast input array")
            g = bget(a, self.ndim, self._shape)
            self._write(None, g)
        else:
            s = lift(val)
            self._write(None, lambda idx: s)

    def _write(self, cond, val):
        """write val(idx) at view indices idx where cond(idx) (None: everywhere)"""
        maps, shape, nd = self.maps, self._shape, self.ndim
        ident = maps == tuple(("ax", i, 0, 1) for i in range(len(maps))) and nd == len(maps) and \
            all(a is b or (isinstance(a, int) and isinstance(b, int) and a == b) or
                (not isinstance(a, int) and not isinstance(b, int) and a.eq(b))
                for a, b in zip(shape, self.buf.dims))
        if ident:
            self.buf.write(cond or (lambda idx: True), val)
            return

        def inv(b):
            cs, idx = [], [0] * nd
            for m, bi in zip(maps, b):
                if m[0] == "fix":
                    cs.append(_eq(bi, m[1]))
                else:
                    _, k, off, st = m
                    t = _add(bi, _mul(off, -1))
                    if st == 1:
                        j = t
                    elif st == -1:
                        j = _mul(t, -1)
                    else:
                        cs.append(_eq(t % st if isinstance(t, int) else zi(zi_(t) % abs(st)), 0))
                        j = t // st if isinstance(t, int) else zi(zi_(_mul(t, 1 if st > 0 else -1)) / abs(st))
                    cs.append(_le(0, j))
                    cs.append(_lt(j, shape[k]))
                    idx[k] = j
            return cs, tuple(idx)

        def c(b):
            cs, idx = inv(b)
            if any(x is False for x in cs):
                return False
            return And_(*cs, *( [cond(idx)] if cond is not None else []))
        self.buf.write(c, lambda b: val(inv(b)[1]))

    # in place operators act on the buffer, as numpy does
    def _inplace(self, op, o):
        if isinstance(o, (SQuantity, u.Quantity)) or _is_unit(o):
            return binop(op, self, o)
        r = binop(op, self, o)
        if isinstance(r, SQuantity):
            return r
        if self.kind == "i" and r.kind == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        self._assign(r)
        return self

    def __iadd__(self, o):
        return self._inplace("add", o)

    def __isub__(self, o):
        return self._inplace("sub", o)

    def __imul__(self, o):
        return self._inplace("mul", o)

    def __itruediv__(self, o):
        return self._inplace("div", o)

    def __ipow__(self, o):
        return self._inplace("pow", o)

    def __iand__(self, o):
        return self._inplace("and", o)

    def __ior__(self, o):
        return self._inplace("or", o)

    # -- reductions and numpy methods are delegated to the shim
    def __getattr__(self, name):
        if name in ("sum", "mean", "max", "min", "any", "all", "std", "var", "argmax", "argmin", "prod",
                    "cumsum", "conj", "round", "nonzero", "repeat", "dot", "argsort", "ptp", "clip"):
            from . import nps
            f = getattr(nps.np_shim, name)
            return lambda *a, **k: f(self, *a, **k)
        if name in ("real", "imag"):
            return unop(name, self)
        if name == "byteswap":
            return lambda *a, **k: self.copy()
        if name == "newbyteorder":
            return lambda *a, **k: self
        if name == "fill":
            return lambda v: self._assign(v)
        if name == "flags":
            raise Unsupported("array flags")
        raise AttributeError("'SArr' object has no attribute '%s'" % name)


def _eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return zi_(a) == zi_(b)


def _le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return zi_(a) <= zi_(b)


def _lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return zi_(a) < zi_(b)


def _dtrue(c):
    """condition needed for the access to be legal: fork when undecided"""
    d = ctx().decide(c)
    if d is None:
        d = ctx().branch(c)
    return d


def _dtrue_soft(c):
    return ctx().decide(c) is True


def _mask_key(key):
    if isinstance(key, tuple):
        if len(key) == 1:
            key = key[0]
        else:
            return None
    if isinstance(key, SArr) and key.kind == "b":
        return key
    if isinstance(key, np.ndarray) and key.dtype == bool:
        return arr(key)
    return None


def same_dims(a, b):
    if len(a) != len(b):
        raise IndexError("boolean index did not match indexed array")
    for x, y in zip(a, b):
        if not dim_eq(x, y):
            raise IndexError("boolean index did not match indexed array")


class SSel(Arith):
    """a[mask]: the elements selected by a mask, in order, as a 1-D array."""

    isscalar = False
    ndim = 1

    def __init__(self, dims, fn, mask, kind):
        self.bdims, self.fn, self.mask, self.kind = tuple(dims), fn, mask, kind

    def mask_at(self, idx):
        return to_bool(self.mask(idx)).c

    def count(self):
        return ctx().functional("isum", self.bdims,
                                lambda idx: If_(self.mask_at(idx), z3.IntVal(1), z3.IntVal(0)), sort=In)

    @property
    def size(self):
        return SInt(self.count())

    @property
    def shape(self):
        return (self.size,)

    @property
    def dtype(self):
        return DT[self.kind]

    def same_mask(self, mf):
        if mf is self.mask:
            return True
        c = ctx()
        idx = tuple(c.fresh("mk", In) for _ in self.bdims)
        a, b = self.mask_at(idx), to_bool(mf(idx)).c
        if zb(a).eq(zb(b)):
            return True
        rng = [z3.And(i >= 0, i < zi_(d)) for i, d in zip(idx, self.bdims)]
        return c._solve(list(c.pc) + rng, zb(a) == zb(b), 2000)[0] == "proved"

    def map(self, f, kind=None):
        old = self.fn
        return SSel(self.bdims, lambda idx: f(old(idx)), self.mask, kind or self.kind)

    def copy(self, order=None):
        return SSel(self.bdims, self.fn, self.mask, self.kind)

    def ravel(self):
        return self

    flatten = squeeze = ravel

    def astype(self, t, **k):
        kd = kind_of_dtype(t)
        return self.map(lambda v: cast_scalar(v, kd), kd)

    def __getitem__(self, key):
        if isinstance(key, SSel) and key.kind == "b":
            if len(key.bdims) != len(self.bdims) or not self.same_mask(key.mask):
                raise Unsupported("selection of a selection under another mask")
            kf, m = key.fn, self.mask
            return SSel(self.bdims, self.fn,
                        lambda idx: SBool(And_(to_bool(m(idx)).c, to_bool(kf(idx)).c)), self.kind)
        if isinstance(key, tuple) and any(k is None for k in key):
            raise Unsupported("new axis on a selection")
        raise Unsupported("index into a selection")

    def __setitem__(self, key, val):
        if isinstance(key, SSel) and key.kind == "b" and self.same_mask(key.mask):
            kf, old, s = key.fn, self.fn, lift(val)
            self.fn = lambda idx: s_merge(to_bool(kf(idx)).c, cast_scalar(s, self.kind), old(idx))
            return
        raise Unsupported("assignment into a selection")

    def __len__(self):
        raise Unsupported("len of a selection")

    def __iter__(self):
        raise Unsupported("iteration over a selection")

    def __bool__(self):
        raise Unsupported("truth of a selection")

    def _inplace(self, op, o):
        r = binop(op, self, o)
        if isinstance(r, SSel):
            self.fn = r.fn
            return self
        return r

    def __iadd__(self, o):
        return self._inplace("add", o)

    def __isub__(self, o):
        return self._inplace("sub", o)

    def __imul__(self, o):
        return self._inplace("mul", o)

    def __itruediv__(self, o):
        return self._inplace("div", o)

    def __getattr__(self, name):
        if name in ("sum", "mean", "max", "min", "any", "all", "std", "var", "prod"):
            from . import nps
            f = getattr(nps.np_shim, name)
            return lambda *a, **k: f(self, *a, **k)
        raise AttributeError("'SSel' object has no attribute '%s'" % name)


def _stack_iter(x):
    """array of the elements of an iterable of symbolic length"""
    if len(x.dims) != 1:
        raise Unsupported("array of a product")
    from . import rt
    c = ctx()
    k0 = z3.Int("el!%d" % next(c.counter))
    c.index_vars[k0.get_id()] = k0

    def thunk():
        c.assume(k0 >= 0)
        c.assume(k0 < zi_(x.n))
        return x.at(k0)
    res = c.sub_explore(thunk, lambda: None)
    if not res or any(e is not None for _, _, e in res):
        raise Unsupported("elements of an array that may fail")
    vals = [arr(r) if isinstance(r, (list, tuple)) else r for _, r, _ in res]
    if all(isinstance(v, Scalar) or is_num(v) for v in vals):
        m = lift(vals[-1])
        for (cond, _, _), v in list(zip(res, vals))[-2::-1]:
            m = s_merge(z3.simplify(zb(cond)), lift(v), m)
        return SArr.new([x.n], lambda idx: rt.subst_scalar(m, [(k0, zi_(idx[0]))]), kind_of(m))
    if len(vals) != 1 or not isinstance(vals[0], SArr):
        raise Unsupported("array of objects")
    e = vals[0]
    f = e.snap()
    return SArr.new([x.n] + list(e._shape), lambda idx: rt.subst_scalar(lift(f(tuple(idx[1:]))), [(k0, zi_(idx[0]))]), e.kind)


def arr(x, kind=None):
    """anything array-like -> SArr (no copy when already one)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, SSel):
        raise Unsupported("selection used as a full array")
    if isinstance(x, SQuantity):
        raise Unsupported("quantity used as an array")
    if isinstance(x, (Scalar, z3.ExprRef)) or is_num(x):
        s = lift(x)
        return SArr.new((), lambda idx: s, kind_of(s))
    if getattr(type(x), "_siter", False):
        return _stack_iter(x)
    if isinstance(x, (list, tuple)):
        if any(is_symbolic(v) for v in x):
            items = list(x)
            if all(isinstance(v, Scalar) or is_num(v) for v in items):
                vals = [lift(v) for v in items]
                k = max((kind_of(v) for v in vals), key="bifc".index)
                return SArr.new((len(vals),), lambda idx: pick([cast_scalar(v, k) for v in vals], idx[0]), k)
            if all(isinstance(v, (SArr, np.ndarray)) for v in items):
                vals = [arr(v) for v in items]
                dims = vals[0]._shape
                for v in vals[1:]:
                    if len(v._shape) != len(dims) or not all(dim_eq(p, q) for p, q in zip(v._shape, dims)):
                        raise ValueError("setting an array element with a sequence")
                fs = [v.snap() for v in vals]
                k = max((v.kind for v in vals), key="bifc".index)
                return SArr.new((len(vals),) + tuple(dims),
                                lambda idx: pick([cast_scalar(f(idx[1:]), k) for f in fs], idx[0]), k)
            raise Unsupported("nested sequence as an array")
        x = np.asarray(x)
    if isinstance(x, np.ndarray):
        if isinstance(x, u.Quantity):
            raise Unsupported("quantity used as an array")
        k = kind_of_dtype(x.dtype)
        if x.ndim == 0:
            s = lift(x.item())
            return SArr.new((), lambda idx: s, k)
        data = x.copy()

        def fn(idx):
            if all(isinstance(i, int) for i in idx):
                return cast_scalar(lift(data[idx].item()), k)
            return _pick_nd(data, idx, k)
        return SArr.new(data.shape, fn, k)
    raise Unsupported("cannot make an array of %r" % type(x))


def pick(vals, i):
    if isinstance(i, int):
        return vals[i]
    if not vals:
        raise Unsupported("pick from nothing")
    r = vals[-1]
    for n in range(len(vals) - 2, -1, -1):
        r = s_merge(i == n, vals[n], r)
    return r


def _pick_nd(data, idx, k):
    if data.size > 400:
        raise Unsupported("symbolic index into a large constant array")
    if data.size and (data == data.flat[0]).all():
        return cast_scalar(lift(data.flat[0].item()), k)
    if data.ndim == 1:
        return pick([cast_scalar(lift(v.item()), k) for v in data], idx[0])
    return pick([_pick_nd(d, idx[1:], k) if not all(isinstance(i, int) for i in idx[1:]) else
                 cast_scalar(lift(d[tuple(idx[1:])].item()), k) for d in data], idx[0])


def broadcast_dims(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        cur = 1
        for s in shapes:
            j = ax - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
                continue
            if dim_eq(cur, d):
                continue
            if not isinstance(cur, int) and ctx().branch(cur == 1):
                cur = d
                continue
            if not isinstance(d, int) and ctx().branch(d == 1):
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bget(a, nd, dims):
    """element getter of array a broadcast to nd axes of size dims"""
    f, s = a.snap(), a._shape
    off = nd - len(s)
    one = [isinstance(d, int) and d == 1 for d in s]
    for i, d in enumerate(s):
        if not isinstance(d, int) and isinstance(dims[off + i], int) and False:
            pass
        if not one[i] and not isinstance(d, int):
            t = dims[off + i]
            if not (not isinstance(t, int) and t.eq(d)) and ctx().decide(zi_(d) == zi_(t)) is not True:
                one[i] = True      # decided to be 1 by broadcast_dims

    def g(idx):
        return f(tuple(0 if one[i] else idx[off + i] for i in range(len(s))))
    return g


def elementwise(f, *args, kind=None):
    """apply scalar function f over broadcast arrays / selections / scalars"""
    if any(isinstance(a, SSel) for a in args):
        sel = [a for a in args if isinstance(a, SSel)]
        ref = sel[0]
        for s in sel[1:]:
            if len(s.bdims) != len(ref.bdims) or not ref.same_mask(s.mask):
                raise Unsupported("operation on selections under different masks")
        gets = []
        for a in args:
            if isinstance(a, SSel):
                gets.append(a.fn)
            elif isinstance(a, (SArr, np.ndarray)) and np.ndim(a) if isinstance(a, np.ndarray) else \
                    (isinstance(a, SArr) and a.ndim):
                raise Unsupported("selection combined with a full array")
            else:
                s = a.get(()) if isinstance(a, SArr) else lift(a)
                gets.append(lambda idx, s=s: s)
        k = kind or _probe(f, gets, len(ref.bdims))
        return SSel(ref.bdims, lambda idx: f(*[g(idx) for g in gets]), ref.mask, k)
    if not any(isinstance(a, (SArr, np.ndarray)) for a in args):
        return f(*[lift(a) for a in args])
    arrs = [arr(a) for a in args]
    dims = broadcast_dims([a._shape for a in arrs])
    gets = [bget(a, len(dims), dims) for a in arrs]
    k = kind or _probe(f, gets, len(dims))
    if not dims:
        return f(*[g(()) for g in gets])
    return SArr.new(dims, lambda idx: f(*[g(idx) for g in gets]), k)


_probe_n = [0]


def _probe(f, gets, nd):
    idx = tuple(z3.Int("probe!%d" % n) for n in range(nd))
    save = core.CUR.frames if core.CUR is not None else None
    r = f(*[g(idx) for g in gets])
    return kind_of(r)


def has_unit(x):
    return isinstance(x, (SQuantity, u.Quantity)) or _is_unit(x)


def binop(op, a, b):
    if has_unit(a) or has_unit(b):
        return q_bin(op, a, b)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if op == "eq":
            return False
        if op == "ne":
            return True
        raise TypeError("unsupported operand types for %s" % op)
    if not (isinstance(a, (Sym, np.ndarray, z3.ExprRef)) or is_num(a)) or \
            not (isinstance(b, (Sym, np.ndarray, z3.ExprRef)) or is_num(b)):
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            a = arr(a) if isinstance(a, (list, tuple)) else a
            b = arr(b) if isinstance(b, (list, tuple)) else b
        else:
            if op == "eq":
                return False
            if op == "ne":
                return True
            raise TypeError("unsupported operand type(s): %s and %s" % (type(a), type(b)))
    if op in ("and", "or", "xor"):
        def f(x, y):
            return s_bin(op, x, y)
        return elementwise(f, a, b)
    if op in ("add", "mul", "sub") and all(
            isinstance(x, SArr) and x.kind == "b" or isinstance(x, np.ndarray) and x.dtype == bool for x in (a, b)):
        # numpy: sum and product of truth values are or and and
        if op == "sub":
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        op = "or" if op == "add" else "and"
    return elementwise(lambda x, y: s_bin(op, x, y), a, b)


def unop(op, a):
    if isinstance(a, SQuantity):
        if op in ("neg", "abs", "real", "imag", "conj"):
            return SQuantity(unop(op, a.value), a.unit)
        if op in ("isnan", "isfinite", "isinf", "sign"):
            return unop(op, a.value)
        if op == "sqrt":
            return SQuantity(unop(op, a.value), a.unit ** 0.5)
        if op in ("floor", "ceil", "rint"):
            return SQuantity(unop(op, a.value), a.unit)
        if a.unit == u.dimensionless_unscaled or (op in ("cos", "sin", "tan") and a.unit.is_equivalent(u.rad)):
            return unop(op, a.to(u.rad if op in ("cos", "sin", "tan") and a.unit.is_equivalent(u.rad)
                                 else u.dimensionless_unscaled).value)
        raise TypeError("Can only apply '%s' function to dimensionless quantities" % op)
    if op in ("not",):
        return elementwise(lambda x: s_un("not", x), a)
    return elementwise(lambda x: s_un(op, x), a)


# ---------------------------------------------------------------------------
# quantities

def q_parts(x):
    """(value, unit or None)"""
    if isinstance(x, SQuantity):
        return x.value, x.unit
    if isinstance(x, u.Quantity):
        v = x.value
        return (v if np.ndim(v) else (v.item() if hasattr(v, "item") else v)), x.unit
    if _is_unit(x):
        return 1.0, x
    return x, None


def mkq(v, unit):
    if isinstance(v, (Sym,)):
        return SQuantity(v, unit)
    return u.Quantity(v, unit)


def q_bin(op, a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if op in ("eq", "ne"):
            return op == "ne"
        raise TypeError("unsupported operand")
    (va, ua), (vb, ub) = q_parts(a), q_parts(b)
    if op in ("mul", "div"):
        one = u.dimensionless_unscaled
        unit = (ua or one) * (ub or one) if op == "mul" else (ua or one) / (ub or one)
        return SQuantity(binop(op, va, vb), unit)
    if op == "pow":
        if ub is not None:
            raise TypeError("Can only raise something to a dimensionless quantity")
        if is_symbolic(vb):
            raise Unsupported("quantity raised to a symbolic power")
        return SQuantity(binop("pow", va, vb), ua ** vb)
    if op in ("add", "sub") + CMP:
        if ua is None or ub is None:
            # astropy treats a bare number as dimensionless (0, inf, nan fit any unit)
            if ua is None and is_num(va) and (va == 0 or va != va or abs(va) == float("inf")):
                ua = ub
            elif ub is None and is_num(vb) and (vb == 0 or vb != vb or abs(vb) == float("inf")):
                ub = ua
            ua = ua or u.dimensionless_unscaled
            ub = ub or u.dimensionless_unscaled
        if not ub.is_equivalent(ua):
            if op == "eq":
                return False
            if op == "ne":
                return True
            raise u.UnitConversionError("units %s and %s are not convertible" % (ua, ub))
        f = ufac(ub, ua)
        vb2 = vb if isinstance(f, float) and f == 1.0 else binop("mul", vb, f)
        r = binop(op, va, vb2)
        return r if op in CMP else SQuantity(r, ua)
    if op in ("floordiv", "mod"):
        raise Unsupported("quantity " + op)
    raise TypeError("unsupported operand type for quantities: " + op)


_SCALE = {}


def _frac(x):
    q = nice(x)
    return Fraction(q.numerator_as_long(), q.denominator_as_long())


def unit_scale(un):
    """exact ratio of a unit to the irreducible units (each defining number of a
    unit read as the simple ratio it is written as); None when not rational"""
    if un in _SCALE:
        return _SCALE[un]
    r = None
    if isinstance(un, u.IrreducibleUnit):
        r = Fraction(1)
    elif isinstance(un, u.CompositeUnit):
        r = _frac(un.scale)
        for b, p in zip(un.bases, un.powers):
            s = unit_scale(b)
            if s is None or (s != 1 and Fraction(p).denominator != 1):
                r = None
                break
            if s != 1:
                r *= s ** int(p)
    elif isinstance(un, u.NamedUnitBase if hasattr(u, "NamedUnitBase") else u.core.NamedUnit):
        r = unit_scale(un.represents)
    _SCALE[un] = r
    return r


def ufac(a, b, equivalencies=[]):
    """value in b of one a (raises UnitConversionError as astropy does)"""
    f = a.to(b, equivalencies=equivalencies)
    if f == 1.0:
        return 1.0
    x, y = unit_scale(a), unit_scale(b)
    if x is None or y is None:
        return f
    q = x / y
    assert abs(float(q) / f - 1) < 1e-9, (a, b)
    return SReal(z3.Q(q.numerator, q.denominator))


class SQuantity(Arith):
    """A symbolic value with a concrete astropy unit."""

    def __init__(self, value, unit):
        if isinstance(value, (SBool, SInt)):
            value = to_real(value)
        if isinstance(value, SArr) and value.kind in "bi":
            value = value.astype(float)
        self._v, self.unit = value, u.Unit(unit)

    @property
    def value(self):
        return self._v

    @property
    def isscalar(self):
        return not isinstance(self._v, (SArr, SSel, np.ndarray)) or getattr(self._v, "ndim", 1) == 0

    @property
    def shape(self):
        return getattr(self._v, "shape", ())

    @property
    def ndim(self):
        return getattr(self._v, "ndim", 0)

    @property
    def size(self):
        return getattr(self._v, "size", 1)

    @property
    def dtype(self):
        return DT["f"]

    @property
    def T(self):
        return SQuantity(self._v.T, self.unit)

    def __len__(self):
        if self.isscalar:
            raise TypeError("'Quantity' object with a scalar value has no len()")
        return len(self._v)

    def __iter__(self):
        if self.isscalar:
            raise TypeError("'Quantity' object with a scalar value is not iterable")
        return iter([SQuantity(v, self.unit) for v in self._v])

    def __getitem__(self, k):
        if self.isscalar:
            raise TypeError("'Quantity' object with a scalar value does not support indexing")
        return SQuantity(self._v[k], self.unit)

    def __setitem__(self, k, val):
        v, un = q_parts(val)
        un = un or (self.unit if is_num(v) and (v == 0 or v != v) else u.dimensionless_unscaled)
        f = ufac(un, self.unit)
        self._v[k] = v if isinstance(f, float) and f == 1.0 else binop("mul", v, f)

    def __bool__(self):
        raise ValueError("Quantity truthiness is ambiguous")

    def copy(self):
        return SQuantity(self._v.copy() if isinstance(self._v, Sym) else np.copy(self._v), self.unit)

    def ravel(self):
        return SQuantity(self._v.ravel(), self.unit)

    def squeeze(self):
        return SQuantity(self._v.squeeze(), self.unit)

    def astype(self, t, **k):
        return SQuantity(self._v.astype(t) if kind_of_dtype(t) != "i" else _unsup("int quantity"), self.unit)

    def to(self, unit, equivalencies=[], copy=True):
        unit = u.Unit(unit)
        v = self._v
        if self.unit == unit:
            return SQuantity(v, unit)
        try:
            f = ufac(self.unit, unit)
            return SQuantity(binop("mul", v, f), unit)
        except u.UnitConversionError:
            pass
        # equivalencies, in astropy's order
        eqs = list(equivalencies)
        norm = []
        for e in eqs:
            if len(e) == 2:
                norm.append((e[0], e[1], lambda x: x, lambda x: x))
            elif len(e) == 3:
                norm.append((e[0], e[1], e[2], e[2]))
            else:
                norm.append(tuple(e))
        for fu, tu, a, b in norm:
            if tu is None:
                # e.g. dimensionless_angles: (radian, None)
                try:
                    f = ufac(self.unit, unit, [(fu, None)])
                    return SQuantity(binop("mul", v, f), unit)
                except u.UnitConversionError:
                    continue
            try:
                s1, s2 = ufac(self.unit, fu), ufac(tu, unit)
                return SQuantity(binop("mul", a(binop("mul", v, s1)), s2), unit)
            except u.UnitConversionError:
                pass
            try:
                s1, s2 = ufac(self.unit, tu), ufac(fu, unit)
                return SQuantity(binop("mul", b(binop("mul", v, s1)), s2), unit)
            except u.UnitConversionError:
                pass
        raise u.UnitConversionError("'%s' and '%s' are not convertible" % (self.unit, unit))

    def to_value(self, unit=None, equivalencies=[]):
        return self._v if unit is None else self.to(unit, equivalencies).value

    @property
    def si(self):
        raise Unsupported("Quantity.si")

    def _inplace(self, op, o):
        r = q_bin(op, self, o)
        if isinstance(r, SQuantity) and isinstance(self._v, SArr):
            if op in ("add", "sub") and r.unit != self.unit:
                r = r.to(self.unit)
            self._v._assign(r._v)
            return self if r.unit == self.unit else SQuantity(self._v, r.unit)
        return r

    def __iadd__(self, o):
        return self._inplace("add", o)

    def __isub__(self, o):
        return self._inplace("sub", o)

    def __imul__(self, o):
        return self._inplace("mul", o)

    def __itruediv__(self, o):
        return self._inplace("div", o)

    def __getattr__(self, name):
        if name in ("sum", "mean", "max", "min", "std"):
            from . import nps
            f = getattr(nps.np_shim, name)
            return lambda *a, **k: SQuantity(f(self._v, *a, **k), self.unit)
        if name in ("any", "all"):
            raise TypeError("%s on a quantity" % name)
        raise AttributeError("'SQuantity' object has no attribute '%s'" % name)


# ---------------------------------------------------------------------------
# fresh symbolic inputs

def fresh_int(name, lo=None, hi=None):
    c = ctx()
    k = c.fresh(name, In)
    c.inputs[name] = k
    if lo is not None:
        c.assume(k >= lo)
    if hi is not None:
        c.assume(k <= hi)
    return SInt(k)


def fresh_real(name, nan=False, inf=False, lo=None, gt=None):
    c = ctx()
    v = c.fresh(name, Rl)
    c.inputs[name] = v
    r = SReal(v, c.fresh(name + "_nan", Bo) if nan else False, c.fresh(name + "_inf", Bo) if inf else False)
    if not b_false(r.inf):
        c.assume(z3.Implies(r.inf, v != 0))
    if nan:
        c.inputs[name + "_nan"] = r.nan
    if lo is not None:
        c.assume(v >= lo)
    if gt is not None:
        c.assume(v > gt)
    return r


def fresh_bool(name):
    c = ctx()
    b = c.fresh(name, Bo)
    c.inputs[name] = b
    return SBool(b)


def terms_of(v):
    v = lift(v)
    if isinstance(v, SCplx):
        return terms_of(v.re) + terms_of(v.im)
    if isinstance(v, SReal):
        return [x for x in (v.v, v.nan, v.inf) if isinstance(x, z3.ExprRef)]
    return [v.e if isinstance(v, SInt) else v.c]


def lost_contents(buf):
    """unknown contents: what is refuted about them is not reported"""
    c = ctx()
    c.lost = True
    t = "lost!%d" % next(c.counter)
    mk = lambda sfx, s: z3.Function(t + sfx, *([In] * len(buf.dims) + [s])) if buf.dims else (lambda: z3.Const(t + sfx, s))
    f = mk("", {"f": Rl, "i": In, "b": Bo, "c": Rl}[buf.kind])
    g, n = mk("m", Rl), mk("n", Bo)

    def fn(idx):
        z = [zi_(i) for i in idx]
        if buf.kind == "c":
            return SCplx(SReal(f(*z), n(*z)), SReal(g(*z), n(*z)))
        return SReal(f(*z), n(*z)) if buf.kind == "f" else lift(f(*z))
    return fn


def fresh_arr(name, dims, kind="f", nan=False, inf=False, owner="caller", gt=None, ge=None):
    """array of unknown contents; dims: list of SInt / int / z3"""
    c = ctx()
    dims = [as_dim(d) for d in dims]
    n = len(dims)
    tag = "%s!%d" % (name, next(c.counter))
    dom = [In] * n

    def mk(suffix, sort):
        return z3.Function(tag + suffix, *(dom + [sort])) if n else (lambda *a, k=z3.Const(tag + suffix, sort): k)
    fv = mk("", {"f": Rl, "i": In, "b": Bo, "c": Rl}[kind])
    fn_ = mk("_nan", Bo) if nan else None
    fi = mk("_inf", Bo) if inf else None
    fim = mk("_im", Rl) if kind == "c" else None
    zz = lambda idx: [zi_(i) for i in idx]
    if kind == "f":
        def fn(idx):
            z = zz(idx)
            v = fv(*z)
            if inf:
                # the sign of an infinity is carried by a non-zero value
                v = z3.If(z3.And(fi(*z), v == 0), rv(1), v)
            return SReal(v, fn_(*z) if nan else False, fi(*z) if inf else False)
    elif kind == "i":
        fn = lambda idx: SInt(fv(*zz(idx)))
    elif kind == "b":
        fn = lambda idx: SBool(fv(*zz(idx)))
    else:
        fn = lambda idx: SCplx(SReal(fv(*zz(idx))), SReal(fim(*zz(idx))))
    a = SArr.new(dims, fn, kind, name, owner)
    a.buf.init = a.buf.fn
    if n and kind in "fi" and (gt is not None or ge is not None):
        def facts(app):
            return ([app > gt] if gt is not None else []) + ([app >= ge] if ge is not None else [])
        c.decl_facts[tag] = facts
        if gt is not None and gt >= 0 or ge is not None and ge >= 0:
            c.nonneg_decls.add(tag)
    return a


def arrid(a, extra=None):
    """identity of the contents of an array: a term of sort Arr"""
    if isinstance(a, SSel):
        fn, mask = a.fn, a.mask

        def body(idx):
            m = zb(to_bool(mask(idx)).c)
            ps = parts(fn(idx))
            return [m] + [z3.If(m, p, _zero(p)) for p in ps]
        return ctx().functional("arr", a.bdims, body, sort=ArrSort, extra=("sel", a.kind, extra))
    a = arr(a)
    f = a.snap()
    return ctx().functional("arr", a._shape, lambda idx: parts(f(idx)), sort=ArrSort,
                            extra=(a.kind, len(a._shape), extra))


def _zero(p):
    return {Rl: rv(0), In: z3.IntVal(0), Bo: z3.BoolVal(False)}[p.sort()]
