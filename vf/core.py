"""Core of the verifier: path exploration, path conditions, obligations and
their discharge by SMT solvers (z3 in process, cvc5 as a second back end).

Everything is first order.  Reductions over arrays (sum, any, max, ...) and
opaque library functions of arrays are *functionals*: uninterpreted function
symbols whose defining body is kept in a registry; when an obligation is to be
discharged, instances of the (trusted, listed) lemmas about them are generated,
each pointwise premise being itself a sub-obligation for the solver.
"""
import itertools
import subprocess
import tempfile
import os
import time
import traceback
from fractions import Fraction
import z3
from . import ideal

z3.set_param("smt.random_seed", 1)


class Unsupported(BaseException):
    """The verifier cannot follow the code here: the obligation is undecided."""


class Infeasible(BaseException):
    """The current path has a contradictory condition."""


class Budget(BaseException):
    """Exploration budget exceeded: undecided."""


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def zb(x):
    """python bool or z3 Bool -> z3 Bool"""
    if isinstance(x, z3.BoolRef):
        return x
    if x is True or x is False:
        return TRUE if x else FALSE
    return z3.BoolVal(bool(x))


def b_true(x):
    return x is True or (isinstance(x, z3.BoolRef) and z3.is_true(x))


def b_false(x):
    return x is False or (isinstance(x, z3.BoolRef) and z3.is_false(x))


def Or_(*xs):
    out = []
    for x in xs:
        if b_true(x):
            return True
        if not b_false(x):
            out.append(zb(x))
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def And_(*xs):
    out = []
    for x in xs:
        if b_false(x):
            return False
        if not b_true(x):
            out.append(zb(x))
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Not_(x):
    if b_true(x):
        return False
    if b_false(x):
        return True
    return z3.Not(x)


def rv(x):
    """python number -> exact z3 real"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(float(x))
    return z3.Q(f.numerator, f.denominator)


# ---------------------------------------------------------------------------
# functionals

class FDef:
    __slots__ = ("name", "op", "params", "bound", "dims", "body", "decl", "extra")

    def __init__(self, name, op, params, bound, dims, body, decl, extra=None):
        self.name, self.op, self.params = name, op, params
        self.bound, self.dims, self.body, self.decl = bound, dims, body, decl
        self.extra = extra


_collect_cache = {}


def walk(expr, seen=None):
    seen = set() if seen is None else seen
    todo = [expr]
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield e
        if z3.is_app(e):
            todo.extend(e.children())
        elif z3.is_quantifier(e):
            todo.append(e.body())


def contains(expr, const):
    cid = const.get_id()
    for e in walk(expr):
        if e.get_id() == cid:
            return True
    return False


def contains_prefix(e, p):
    return isinstance(e, z3.ExprRef) and any(z3.is_app(x) and x.decl().name().startswith(p) for x in walk(e))


def contains_decl(expr, names):
    for e in walk(expr):
        if z3.is_app(e) and e.decl().name() in names:
            return True
    return False


# uninterpreted real functions with instance axioms
R1 = {n: z3.Function(n, z3.RealSort(), z3.RealSort()) for n in
      ("SQRT", "EXP", "LN", "LOG10", "COS", "SIN", "TAN", "ATAN", "POW10")}
ATAN2 = z3.Function("ATAN2", z3.RealSort(), z3.RealSort(), z3.RealSort())
POW = z3.Function("POW", z3.RealSort(), z3.RealSort(), z3.RealSort())

PI = 3.141592653589793


_NF = {}


def type_zero(e):
    return z3.IntVal(0) if e.sort() == z3.IntSort() else z3.RealVal(0)


_COMM = {z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ}


def _colour(p, params, bound, terms):
    """a hash of how p occurs in the terms, blind to its name and to the order of
    the arguments of commutative operations"""
    memo = {q.get_id(): 1 for q in params}
    memo.update((b.get_id(), 10 + n) for n, b in enumerate(bound))
    memo[p.get_id()] = 2
    for t in terms:
        stack = [t]
        while stack:
            x = stack[-1]
            if x.get_id() in memo:
                stack.pop()
                continue
            todo = [y for y in x.children() if y.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            hs = [memo[y.get_id()] for y in x.children()]
            if z3.is_app(x):
                if x.decl().kind() in _COMM:
                    hs.sort()
                memo[x.get_id()] = hash((x.decl().hash() if hs else x.hash(), tuple(hs)))
            else:
                memo[x.get_id()] = 3
            stack.pop()
    return hash(tuple(memo[t.get_id()] for t in terms))


_RNG = {}


def _rng(w):
    """an interval that holds for every value of the term (None: unbounded)"""
    got = _RNG.get(w.get_id())
    if got is not None:
        return got[1]
    lo = hi = None
    k = w.decl().kind() if z3.is_app(w) else None
    if z3.is_rational_value(w):
        lo = hi = w.as_fraction()
    elif z3.is_int_value(w):
        lo = hi = w.as_long()
    elif k == z3.Z3_OP_ITE:
        (a, b), (p, q) = _rng(w.arg(1)), _rng(w.arg(2))
        lo = None if a is None or p is None else min(a, p)
        hi = None if b is None or q is None else max(b, q)
    elif k == z3.Z3_OP_ADD:
        lo = hi = 0
        for y in w.children():
            a, b = _rng(y)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
    elif k == z3.Z3_OP_TO_REAL:
        lo, hi = _rng(w.arg(0))
    elif k == z3.Z3_OP_MUL and w.num_args() == 2:
        x, y = w.children()
        a, b = _rng(x)
        p, q = _rng(y)
        if x.eq(y):
            lo = 0
        elif a is not None and a == b:
            lo, hi = (p, q) if a >= 0 else (q, p)
            lo = None if lo is None else a * lo
            hi = None if hi is None else a * hi
        elif a is not None and a >= 0 and p is not None and p >= 0:
            lo = 0
    elif k == z3.Z3_OP_UNINTERPRETED and w.num_args() == 1 and w.decl().name() in ("SQRT", "EXP", "POW10"):
        lo = 0
    elif k == z3.Z3_OP_UNINTERPRETED and w.num_args() == 1 and w.decl().name() in ("COS", "SIN"):
        lo, hi = -1, 1
    _RNG[w.get_id()] = (w, (lo, hi))
    return lo, hi


def _cmp_known(x, ch):
    if len(ch) != 2 or not (z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x)):
        return None
    (a, b), (p, q) = _rng(ch[0]), _rng(ch[1])
    if z3.is_ge(x) or z3.is_gt(x):
        a, b, p, q = p, q, a, b
    strict = z3.is_lt(x) or z3.is_gt(x)
    if b is not None and p is not None and (b < p if strict else b <= p):
        return True
    if a is not None and q is not None and (a >= q if strict else a > q):
        return False
    return None


def _nf_not(w):
    if z3.is_not(w):
        return w.arg(0)
    if z3.is_or(w) or z3.is_and(w):
        return _nf_junction([_nf_not(v) for v in w.children()], z3.is_and(w))
    return z3.Not(w)


def _nf_junction(ch, is_or):
    """and/or of normal terms: flattened, without repetition, units propagated, sorted"""
    same, other = (z3.is_or, z3.is_and) if is_or else (z3.is_and, z3.is_or)
    for again in range(6):
        flat, seen = [], set()
        for y in ch:
            for w in (y.children() if same(y) else [y]):
                if (z3.is_true(w) and is_or) or (z3.is_false(w) and not is_or):
                    return z3.BoolVal(is_or)
                if z3.is_true(w) or z3.is_false(w):
                    continue
                if w.get_id() not in seen:
                    seen.add(w.get_id())
                    flat.append(w)
        neg = {w.arg(0).get_id() if z3.is_not(w) else -w.get_id() - 1 for w in flat}

        def contra(v):      # the negation of v is among the members
            return (-v.arg(0).get_id() - 1 if z3.is_not(v) else v.get_id()) in neg
        out, changed = [], False
        for w in flat:
            if other(w):
                vs = w.children()
                if any(v.get_id() in seen for v in vs):
                    changed = True          # absorbed
                    continue
                keep = [v for v in vs if not contra(v)]
                if len(keep) < len(vs):
                    changed = True
                    if not keep:
                        return z3.BoolVal(is_or)
                    w = keep[0] if len(keep) == 1 else _nf_junction(keep, not is_or)
            elif not z3.is_not(w) and contra(w):
                return z3.BoolVal(is_or)
            out.append(w)
        ch = out
        if not changed:
            break
    if not ch:
        return z3.BoolVal(not is_or)
    ch = sorted(ch, key=lambda w: (w.hash(), w.get_id()))
    return ch[0] if len(ch) == 1 else (z3.Or if is_or else z3.And)(*ch)


def nf(e):
    """equivalent term in a form less sensitive to how it was written: and/or
    flattened and sorted, branches of an if-then-else simplified under its condition"""
    got = _NF.get(e.get_id())
    if got is not None:
        return got[1]
    stack = [e]
    while stack:
        x = stack[-1]
        if x.get_id() in _NF:
            stack.pop()
            continue
        if not z3.is_app(x) or x.num_args() == 0:
            _NF[x.get_id()] = (x, x)
            stack.pop()
            continue
        todo = [y for y in x.children() if y.get_id() not in _NF]
        if todo:
            stack.extend(todo)
            continue
        ch = [_NF[y.get_id()][1] for y in x.children()]
        if z3.is_or(x) or z3.is_and(x):
            r = _nf_junction(ch, z3.is_or(x))
        elif z3.is_not(x):
            y = ch[0]
            if z3.is_not(y):
                r = y.arg(0)
            elif z3.is_or(y) or z3.is_and(y):
                r = _nf_junction([_nf_not(w) for w in y.children()], z3.is_and(y))
            elif y.eq(x.arg(0)):
                r = x
            else:
                r = z3.Not(y)
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            c_, a, b = ch
            if z3.is_not(c_):
                c_, a, b = c_.arg(0), b, a
            T, F = z3.BoolVal(True), z3.BoolVal(False)
            fs = [(d.arg(0), T) if z3.is_not(d) else (d, F) for d in (c_.children() if z3.is_or(c_) else [c_])]
            ts = [(d.arg(0), F) if z3.is_not(d) else (d, T) for d in (c_.children() if z3.is_and(c_) else [c_])]
            b2, a2 = z3.substitute(b, *fs), z3.substitute(a, *ts)
            if not (b2.eq(b) and a2.eq(a)):
                a, b = nf(z3.simplify(a2)), nf(z3.simplify(b2))
            if z3.is_true(c_) or a.eq(b):
                r = a
            elif z3.is_false(c_):
                r = b
            else:
                r = z3.If(c_, a, b)
        elif z3.is_eq(x) and len(ch) == 2:
            p, q = ch
            if z3.is_app_of(q, z3.Z3_OP_TO_REAL):
                p, q = q, p
            if z3.is_app_of(p, z3.Z3_OP_TO_REAL):
                if z3.is_app_of(q, z3.Z3_OP_TO_REAL):
                    ch = [p.arg(0), q.arg(0)]
                elif z3.is_rational_value(q):
                    f = q.as_fraction()
                    if f.denominator != 1:
                        _NF[x.get_id()] = (x, z3.BoolVal(False))
                        stack.pop()
                        continue
                    ch = [p.arg(0), z3.IntVal(f.numerator)]
            a, b = sorted(ch, key=lambda w: (z3.is_rational_value(w) or z3.is_int_value(w), w.hash(), w.get_id()))
            r = a == b
        elif _cmp_known(x, ch) is not None:
            r = z3.BoolVal(_cmp_known(x, ch))
        elif all(p.eq(q) for p, q in zip(ch, x.children())):
            r = x
        else:
            r = x.decl()(*ch) if x.num_args() else x
        _NF[x.get_id()] = (x, r)
        stack.pop()
    return _NF[e.get_id()][1]


class Obligation:
    def __init__(self, name, fn, status, backend, seconds, detail=None, model=None, path=0, tainted=False):
        self.name, self.fn, self.status, self.backend = name, fn, status, backend
        self.seconds, self.detail, self.model, self.path = seconds, detail, model, path
        self.tainted = tainted

    def as_dict(self):
        return {k: getattr(self, k) for k in
                ("name", "fn", "status", "backend", "seconds", "detail", "model", "path", "tainted")}


CUR = None   # the current Ctx


def ctx():
    if CUR is None:
        raise Unsupported("symbolic value used outside a verification run")
    return CUR


def raised_in_repo(e):
    """'file:line' when e comes from an explicit raise statement of the repository"""
    tb, last = e.__traceback__, None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename if last else ""
    if "/turbustat/" in fn and os.path.exists(fn):
        lines = open(fn).read().splitlines()
        if last.tb_lineno <= len(lines) and lines[last.tb_lineno - 1].strip().startswith("raise"):
            return "%s:%d" % (fn, last.tb_lineno)
    return None


class Frame:
    """Decision sequence of one exploration level."""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.forks = []


class Ctx:
    """One verification run of one harness (all its paths)."""

    def __init__(self, name, fn="", timeout_ms=8000, feas_ms=400, max_paths=300,
                 budget_s=120, inputs=None):
        self.name, self.fn = name, fn
        self.timeout_ms, self.feas_ms = timeout_ms, feas_ms
        self.max_paths, self.budget_s = max_paths, budget_s
        self.obligs = []
        self.undecided = []
        self.paths = 0
        self.t0 = time.time()
        self.solver_s = 0.0
        self.assumptions = set()
        self.lemmas_used = {}
        self.queries = 0
        self.reset_path()

    # -- per path state ------------------------------------------------------
    def reset_path(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_ms)
        self.pc = []
        self.frames = []
        self.counter = itertools.count()
        self.fdefs = {}        # decl name -> FDef
        self.fkeys = {}
        self.index_vars = {}   # id -> const  (Int consts that are index-like)
        self.bound_depth = 0
        self.opaque = False
        self.lost = False
        self.bufs = []
        self.inputs = {}
        self.lemma_memo = {}
        self.log = []          # log of calls to trusted stubs
        self.cand_idx = []
        self.loop_ks = []      # indices of the symbolic loops being executed
        self.decl_facts = {}   # decl name -> fn(app) -> facts (instances of axioms)
        self.fact_hooks = []
        self.nonneg_decls = set()
        self.elem_facts = []
        self.twins = {}
        self.loops = {}        # (function, number) -> invariant of that while loop

    def fresh(self, base, sort=None):
        n = "%s!%d" % (base, next(self.counter))
        sort = sort if sort is not None else z3.RealSort()
        if self.loop_ks:       # depends on the iteration
            return z3.Function(n, *([z3.IntSort()] * len(self.loop_ks) + [sort]))(*self.loop_ks)
        return z3.Const(n, sort)

    def index(self, base="ix", lo=0, hi=None, assume=True):
        k = z3.Int("%s!%d" % (base, next(self.counter)))
        self.index_vars[k.get_id()] = k
        self.cand_idx.append(k)
        if assume:
            self.assume(k >= lo)
            if hi is not None:
                self.assume(k < hi)
        return k

    def assume(self, c, note=None):
        c = zb(c)
        if note:
            self.assumptions.add(note)
        self.pc.append(c)
        self.solver.add(c)
        ax = self._axioms([c])
        if ax:
            self.solver.add(*ax)

    def check_feasible(self, *cs):
        t = time.time()
        self.queries += 1
        cs = [zb(c) for c in cs]
        r = self.solver.check(*(cs + self._axioms(cs)))
        self.solver_s += time.time() - t
        return r

    def decide(self, c):
        """True/False when the path condition entails c / not c, else None."""
        if b_true(c):
            return True
        if b_false(c):
            return False
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = ("decide", c.get_id(), len(self.pc))
        if key in self.lemma_memo:
            return self.lemma_memo[key][0]
        r = None
        if self.check_feasible(z3.Not(c)) == z3.unsat:
            r = True
        elif self.check_feasible(c) == z3.unsat:
            r = False
        self.lemma_memo[key] = (r, c)
        return r

    def decide_quick(self, c):
        """structural decision only (no solver call)"""
        if b_true(c):
            return True
        if b_false(c):
            return False
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = False
        while z3.is_not(c):
            neg, c = not neg, c.arg(0)
        if z3.is_lt(c) or z3.is_ge(c) or z3.is_le(c) or z3.is_gt(c):
            a, b = c.children()
            d = None
            if z3.is_rational_value(b) or z3.is_int_value(b):
                bv = b.as_fraction() if z3.is_rational_value(b) else b.as_long()
                if bv <= 0 and self.nonneg(a):
                    if z3.is_lt(c):
                        d = False
                    elif z3.is_ge(c):
                        d = True
                    elif bv < 0:
                        d = z3.is_gt(c)
            elif (z3.is_rational_value(a) or z3.is_int_value(a)):
                av = a.as_fraction() if z3.is_rational_value(a) else a.as_long()
                if av <= 0 and self.nonneg(b):
                    if z3.is_le(c):
                        d = True
                    elif z3.is_gt(c):
                        d = False
            if d is not None:
                return d != neg
        return None

    def nonneg(self, e, depth=0):
        """syntactic sufficient condition for e >= 0"""
        if depth > 12:
            return False
        if z3.is_rational_value(e):
            return e.as_fraction() >= 0
        if z3.is_int_value(e):
            return e.as_long() >= 0
        if not z3.is_app(e):
            return False
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            return all(self.nonneg(x, depth + 1) for x in ch)
        if k == z3.Z3_OP_MUL:
            left = []
            for x in ch:
                if any(x.eq(y) for y in left):
                    left = [y for y in left if not x.eq(y)]
                else:
                    left.append(x)
            return all(self.nonneg(x, depth + 1) for x in left)
        if k == z3.Z3_OP_DIV:
            return self.nonneg(ch[0], depth + 1) and self.nonneg(ch[1], depth + 1)
        if k == z3.Z3_OP_POWER:
            return (z3.is_int_value(ch[1]) or z3.is_rational_value(ch[1])) and \
                str(ch[1]) in ("2", "4", "6", "8") or self.nonneg(ch[0], depth + 1)
        if k == z3.Z3_OP_ITE:
            c, a, b = ch
            if z3.is_ge(c) and (z3.is_rational_value(c.arg(1)) or z3.is_int_value(c.arg(1))) and \
                    str(c.arg(1)) == "0" and c.arg(0).eq(a):
                if z3.simplify(a + b).eq(z3.simplify(a - a)):
                    return True
            return self.nonneg(a, depth + 1) and self.nonneg(b, depth + 1)
        if k == z3.Z3_OP_TO_REAL:
            return self.nonneg(ch[0], depth + 1)
        n = e.decl().name()
        if n in ("SQRT", "EXP", "POW10"):
            return True
        fd = self.fdefs.get(n)
        if fd is not None and fd.op in ("sum", "isum"):
            return self.nonneg(fd.body[0], depth + 1)
        if n in self.nonneg_decls:
            return True
        return False

    def branch(self, c):
        if b_true(c):
            return True
        if b_false(c):
            return False
        c = nf(z3.simplify(zb(c)))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.lost and contains_prefix(c, "lost!"):
            self.opaque = True
        fr = self.frames[-1]
        pos = len(fr.taken)
        if pos < len(fr.prefix):
            d = fr.prefix[pos]
            fr.taken.append(d)
            self.assume(c if d else z3.Not(c))
            return d
        if time.time() - self.t0 > self.budget_s:
            raise Budget("time budget of %ss" % self.budget_s)
        t = self.check_feasible(c)
        f = self.check_feasible(z3.Not(c))
        if t == z3.unsat and f == z3.unsat:
            raise Infeasible()
        if t == z3.unsat:
            d = False
        elif f == z3.unsat:
            d = True
        else:
            d = True
            fr.forks.append(fr.taken + [False])
        fr.taken.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self):
        """Non-deterministic choice (both alternatives are explored)."""
        return self.branch(self.fresh("choice", z3.BoolSort()))

    # -- functionals ---------------------------------------------------------
    def bvar(self):
        k = z3.Int("bv!%d" % next(self.counter))
        self.index_vars[k.get_id()] = k
        return k

    def functional(self, op, dims, bodyfn, sort=None, extra=None, bound=None, body=None):
        """op over the index box dims of bodyfn(idx) -> z3 expr.  Returns a z3 term."""
        if bound is None:
            bound = [self.bvar() for _ in dims]
            body = bodyfn(tuple(bound))
        body = [b if isinstance(b, z3.ExprRef) else z3.RealVal(b) for b in
                (body if isinstance(body, (list, tuple)) else [body])]
        body = [z3.simplify(b) for b in body]
        dimz = [d if isinstance(d, z3.ExprRef) else z3.IntVal(d) for d in dims]
        sort = sort if sort is not None else z3.RealSort()
        bound, dimz, body = self._tidy_box(list(bound), dimz, body)
        if op in ("sum", "isum") and len(body) == 1:
            bound, dimz, body = self._tidy_sum(op, bound, dimz, body[0])
        if not bound and op in ("sum", "isum", "any", "max", "min"):
            return body[0]
        if len(bound) > 1 and op in ("sum", "isum"):
            # the order of the axes has no meaning
            iv = [x for x in {e.get_id(): e for t in list(body) + dimz for e in walk(t)
                              if e.get_id() in self.index_vars}.values() if not any(x.eq(b) for b in bound)]
            ks = {b.get_id(): _colour(b, iv + [x for x in bound if not x.eq(b)], [], [d]) for b, d in zip(bound, dimz)}
            o = sorted(range(len(bound)), key=lambda n: ks[bound[n].get_id()])
            bound, dimz = [bound[n] for n in o], [dimz[n] for n in o]
        if op in ("sum", "isum") and (z3.is_rational_value(body[0]) or z3.is_int_value(body[0])) and body[0].eq(type_zero(body[0])):
            return z3.RealVal(0) if sort == z3.RealSort() else z3.IntVal(0)
        bids = {b.get_id() for b in bound}
        params = {}
        for e in itertools.chain(*[walk(x) for x in list(body) + dimz]):
            i = e.get_id()
            if i in self.index_vars and i not in bids:
                params[i] = self.index_vars[i]
        plist = [params[i] for i in sorted(params, key=lambda i: params[i].decl().name())]
        # canonical key: bound and parameters replaced by de Bruijn-like constants
        first = None
        if len(plist) > 1:
            col = {p.get_id(): _colour(p, plist, bound, list(body) + dimz) for p in plist}
            plist.sort(key=lambda p: (col[p.get_id()], p.decl().name()))
            ties = len(set(col.values())) < len(plist)
        for pl in (itertools.permutations(plist) if 1 < len(plist) < 4 and ties else [plist]):
            pl = list(pl)
            sub = [(b, z3.Int("@b%d" % n)) for n, b in enumerate(bound)] + \
                  [(p, z3.Int("@p%d" % n)) for n, p in enumerate(pl)]
            cb = [nf(z3.simplify(z3.substitute(b, *sub)) if sub else b) for b in body]
            cd = [z3.simplify(z3.substitute(d, *sub)) if sub else z3.simplify(d) for d in dimz]
            key = (op, tuple(b.get_id() for b in cb), tuple(d.get_id() for d in cd),
                   len(pl), sort.name(), extra)
            if first is None:
                first = key, cb, cd, pl
            if key in self.fkeys:
                break
        else:
            key, cb, cd, pl = first
        plist = pl
        if op == "any" and z3.is_false(cb[0]):
            return z3.BoolVal(False)
        if op == "any" and z3.is_true(cb[0]):
            return z3.And(*[d > 0 for d in dimz])
        if key not in self.fkeys:
            name = "%s!f%d" % (op, next(self.counter))
            if plist:
                decl = z3.Function(name, *([z3.IntSort()] * len(plist) + [sort]))
            else:
                decl = z3.Function(name, sort)
            canon_p = [z3.Int("@p%d" % n) for n in range(len(plist))]
            canon_b = [z3.Int("@b%d" % n) for n in range(len(bound))]
            self.fdefs[name] = FDef(name, op, canon_p, canon_b, cd, cb, decl, extra)
            self.fkeys[key] = (name, cb, cd)     # keep asts alive
        name = self.fkeys[key][0]
        d = self.fdefs[name].decl
        if not plist and op in ("any", "isum") and len(cb) == 1:
            self._twin(op, name, cb[0], cd, d)
        return d(*plist) if plist else d()

    def _twin(self, op, name, body, dims, decl):
        """something is there exactly when its count is at least one"""
        if op == "any":
            p, mine = body, decl()
        elif self._is01(body):
            a, b = [x.as_long() if z3.is_int_value(x) else x.as_fraction() for x in body.children()[1:]]
            if a == b:
                return
            p, mine = (body.arg(0) if a == 1 else nf(z3.simplify(z3.Not(body.arg(0))))), decl() >= 1
        else:
            return
        k = (p.get_id(), tuple(d.get_id() for d in dims))
        t = self.twins.setdefault(k, {})
        t[op] = (name, mine, p)
        if len(t) == 2 and "done" not in t:
            t["done"] = True
            self.assume(t["any"][1] == t["isum"][1])

    def _tidy_box(self, bound, dims, body):
        """Normal form of an index box: axes of length one are dropped, and a
        flattened axis (used only through // m and % m) becomes two axes."""
        again = True
        while again:
            again = False
            for n, (b, d) in enumerate(zip(bound, dims)):
                d = z3.simplify(d)
                if z3.is_int_value(d) and d.as_long() == 1:
                    body = [z3.simplify(z3.substitute(x, (b, z3.IntVal(0)))) for x in body]
                    bound, dims = bound[:n] + bound[n + 1:], dims[:n] + dims[n + 1:]
                    again = True
                    break
                if z3.is_mul(d):
                    r = self._unflatten(b, d, body)
                    if r:
                        q, m, b1, b2, body = r
                        bound = bound[:n] + [b1, b2] + bound[n + 1:]
                        dims = dims[:n] + [q, m] + dims[n + 1:]
                        again = True
                        break
        return bound, dims, body

    def _tidy_sum(self, op, bound, dims, body):
        """Normal form of a sum: a sum of sums is one sum over both boxes, and a
        term that counts only below n (n <= d) is summed up to n only."""
        bound, dims = list(bound), list(dims)
        for _ in range(8):
            cond = []
            e = body
            while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                if z3.is_rational_value(e.arg(2)) or z3.is_int_value(e.arg(2)):
                    if not e.arg(2).eq(type_zero(e.arg(2))):
                        break
                    g = e.arg(0)
                    cond += list(g.children()) if z3.is_and(g) else [g]
                    e = e.arg(1)
                elif z3.is_rational_value(e.arg(1)) or z3.is_int_value(e.arg(1)):
                    if not e.arg(1).eq(type_zero(e.arg(1))):
                        break
                    g = e.arg(0)
                    cond += [z3.simplify(z3.Not(x)) for x in (g.children() if z3.is_or(g) else [g])]
                    e = e.arg(2)
                else:
                    break
            inner = self.fdefs.get(e.decl().name()) if z3.is_app(e) else None
            if inner is not None and inner.op != op:
                inner = None
            keep, changed = [], False
            for g in cond:
                r = self._bound_of(g, bound)
                if r is not None:
                    n, hi, lo = r
                    if lo is not None and z3.is_int_value(lo) and lo.as_long() <= 0:
                        changed = True
                        continue
                    if hi is not None and not any(contains(hi, b) for b in bound):
                        if hi.eq(dims[n]) or self.decide(dims[n] <= hi):
                            changed = True
                            continue
                        if self.decide(hi <= dims[n]):
                            dims[n] = hi
                            changed = True
                            continue
                elif not any(contains(g, b) for b in bound) and self.decide(z3.Or(g, *[d <= 0 for d in dims])):
                    changed = True
                    continue
                keep.append(g)
            if inner is not None:
                args = e.children()
                idx = [self.bvar() for _ in inner.bound]
                sub = list(zip(inner.params, args)) + list(zip(inner.bound, idx))
                ds = [z3.substitute(d, *sub) if sub else d for d in inner.dims]
                if any(contains(d, b) for d in ds for b in bound):
                    inner = None
                else:
                    e = z3.simplify(z3.substitute(inner.body[0], *sub))
                    bound, dims = bound + idx, dims + ds
                    changed = True
            if not changed:
                break
            keep = sorted(keep, key=lambda g: g.get_id())
            body = z3.simplify(z3.If(z3.And(*keep), e, type_zero(e))) if keep else e
        return bound, dims, [body]

    @staticmethod
    def _bound_of(g, bound):
        """(n, hi, None) for bound[n] < hi, (n, None, lo) for bound[n] >= lo"""
        neg = z3.is_not(g)
        if neg:
            g = g.arg(0)
        if not z3.is_app(g) or g.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_GE):
            return None
        x, y = g.arg(0), g.arg(1)
        if g.decl().kind() == z3.Z3_OP_GE:
            x, y = y, x
        # x <= y, or y < x
        for n, b in enumerate(bound):
            if y.eq(b) and not contains(x, b):
                return (n, x, None) if neg else (n, None, x)
            if x.eq(b) and not contains(y, b):
                return (n, None, z3.simplify(y + 1)) if neg else (n, z3.simplify(y + 1), None)
        return None

    def _unflatten(self, b, d, body):
        ms, cnt = {}, 0
        for e in body:
            seen = set()
            todo = [e]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.eq(b):
                    return None
                if z3.is_app(x):
                    if x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and x.arg(0).eq(b):
                        ms[x.arg(1).get_id()] = x.arg(1)
                        if contains(x.arg(1), b):
                            return None
                        continue
                    todo.extend(x.children())
        if not ms:
            return None
        alts = list(ms.values())
        dv = {x.get_id() for x in walk(d)}
        alts.sort(key=lambda x: x.get_id() not in dv)
        m = alts[0]
        if any(not self.decide(x == m) for x in alts[1:]):
            return None
        fs = []
        todo = list(d.children())
        while todo:
            x = todo.pop(0)
            if z3.is_mul(x):
                todo = list(x.children()) + todo
            else:
                fs.append(x)
        mf = [m]
        if z3.is_mul(m):
            mf = list(m.children())
        for f in mf:
            k = next((i for i, x in enumerate(fs) if x.eq(f)), None)
            if k is None:
                return None
            fs.pop(k)
        if not fs:
            return None
        q = fs[0]
        for x in fs[1:]:
            q = q * x
        b1, b2 = self.bvar(), self.bvar()
        if not self.decide(m > 0):
            return None
        out = []
        for e in body:
            sub = [y for x in alts for y in ((b / x, b1), (b % x, b2))]
            out.append(z3.simplify(z3.substitute(e, *sub)))
            if contains(out[-1], b):
                return None
        return q, m, b1, b2, out

    def fapps(self, exprs):
        """All functional applications occurring in exprs: list of (fdef, args, term)."""
        out, seen, ids = [], set(), set()
        for e in exprs:
            for x in walk(e, seen):
                if z3.is_app(x):
                    n = x.decl().name()
                    if n in self.fdefs and x.get_id() not in ids:
                        ids.add(x.get_id())
                        out.append((self.fdefs[n], x.children(), x))
        return out

    def inst(self, fd, args, idx):
        """body (list) and dims of functional fd at args with bound := idx."""
        sub = list(zip(fd.params, args)) + list(zip(fd.bound, idx))
        sub = [(a, b if isinstance(b, z3.ExprRef) else z3.IntVal(b)) for a, b in sub]
        body = [z3.simplify(z3.substitute(b, *sub)) if sub else b for b in fd.body]
        dims = [z3.simplify(z3.substitute(d, *sub)) if sub else d for d in fd.dims]
        return body, dims

    # -- solving -------------------------------------------------------------
    def _axioms(self, exprs):
        """Instance axioms of SQRT, EXP, ... occurring in exprs."""
        ax, seen, groups = [], set(), {}
        for e in exprs:
            for x in walk(e, seen):
                if z3.is_app(x) and x.num_args():
                    groups.setdefault(x.decl().name(), []).append(x)
        for x in groups.get("SQRT", []):
            a = x.arg(0)
            ax += [z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)), z3.Implies(a > 0, x > 0)]
        for n in ("EXP", "POW10"):
            for x in groups.get(n, []):
                ax += [x > 0]
        for x in groups.get("COS", []):
            ax += [x <= 1, x >= -1]
            if any(y.arg(0).eq(x.arg(0)) for y in groups.get("SIN", [])):
                s = R1["SIN"](x.arg(0))
                ax += [x * x + s * s == 1]
        for x in groups.get("SIN", []):
            ax += [x <= 1, x >= -1]
        for n, dom in (("EXP", False), ("POW10", False), ("LN", True), ("LOG10", True), ("SQRT", None)):
            g = groups.get(n, [])
            for x, y in itertools.islice(itertools.combinations(g, 2), 60):
                a, b = x.arg(0), y.arg(0)
                m = z3.And(z3.Implies(a < b, x < y), z3.Implies(b < a, y < x))
                if dom is True:
                    m = z3.Implies(z3.And(a > 0, b > 0), m)
                elif dom is None:
                    m = z3.Implies(z3.And(a >= 0, b >= 0), m)
                ax.append(m)
        for x in groups.get("LOG10", []):
            a = x.arg(0)
            ax.append(z3.Implies(a > 1, x > 0))
            ax.append(z3.Implies(z3.And(a < 1, a > 0), x < 0))
            ax.append(z3.Implies(a == 1, x == 0))
            if z3.is_app(a) and a.decl().name() == "POW10":
                ax.append(x == a.arg(0))
        for x in groups.get("POW10", []):
            a = x.arg(0)
            if z3.is_app(a) and a.decl().name() == "LOG10":
                ax.append(z3.Implies(a.arg(0) > 0, x == a.arg(0)))
        for x in groups.get("LN", []):
            a = x.arg(0)
            if z3.is_app(a) and a.decl().name() == "EXP":
                ax.append(x == a.arg(0))
        for x in groups.get("POW", []):
            ax.append(z3.Implies(x.arg(0) > 0, x > 0))
        if self.decl_facts:
            done, todo = set(), [x for g in groups.values() for x in g]
            for rnd in range(2):
                new = []
                for x in todo:
                    f = self.decl_facts.get(x.decl().name())
                    if f is not None and x.get_id() not in done:
                        done.add(x.get_id())
                        for fact in f(x):
                            ax.append(fact)
                            new.append(fact)
                todo = [y for e in new for y in walk(e) if z3.is_app(y) and y.num_args()]
        return ax

    def _query(self, assertions, timeout_ms, want_model=False):
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        ax = self._axioms(assertions)
        s.add(*assertions)
        s.add(*ax)
        t = time.time()
        self.queries += 1
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t
        self.solver_s += dt
        return r, (s.model() if r == z3.sat and want_model else None), s, dt

    def _cvc5(self, s, timeout_ms):
        txt = "(set-logic ALL)\n" + s.to_smt2()
        f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
        try:
            f.write(txt)
            f.close()
            t = time.time()
            p = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, "--nl-ext-tplanes", f.name],
                               capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
            self.solver_s += time.time() - t
            out = p.stdout.strip().splitlines()
            return out[0] if out else "unknown"
        except Exception:
            return "unknown"
        finally:
            os.unlink(f.name)

    # lemma instances ---------------------------------------------------------
    def _note(self, kind):
        self.lemmas_used[kind] = self.lemmas_used.get(kind, 0) + 1

    def _inrange(self, idx, dims):
        return [z3.And(i >= 0, i < d) for i, d in zip(idx, dims)]

    def _lemmas(self, base, exprs, level, depth):
        """Facts about the functionals occurring in exprs."""
        facts = []
        apps = self.fapps(exprs)
        cand = list(self.cand_idx)
        # witnesses and instances for any / max / min
        wit = []
        for fd, args, term in apps:
            if fd.op in ("any", "max", "min"):
                w = []
                for n in range(len(fd.bound)):
                    k = z3.Int("w!%s!%d!%s" % (fd.name, n, "_".join(str(a) for a in args)))
                    self.index_vars[k.get_id()] = k
                    w.append(k)
                body, dims = self.inst(fd, args, w)
                rng = self._inrange(w, dims)
                nonempty = z3.And(*[d > 0 for d in dims]) if dims else TRUE
                if fd.op == "any":
                    facts.append(z3.Implies(term, z3.And(*(rng + [body[0]]))))
                elif fd.op in ("max", "min"):
                    # body[0] value, body[1] in-selection flag
                    sel = body[1] if len(body) > 1 else TRUE
                    facts.append(z3.Implies(nonempty if len(body) < 2 else
                                            self._any_sel(fd, args),
                                            z3.And(*(rng + [sel, term == body[0]]))))
                wit += w
                self._note(fd.op + " witness")
        cand = (cand + wit)[-14:]
        ground = self._ground(exprs + facts)
        for fd, args, term in apps:
            if fd.op in ("any", "max", "min"):
                nb = len(fd.bound)
                if nb > 4:
                    continue
                combos = self._match(fd, ground)
                if nb <= 2 and len(combos) < 40:
                    combos = combos + list(itertools.product(cand, repeat=nb))
                elif nb <= 3 and len(combos) < 40:
                    combos = combos + [tuple(cand[i:i + nb]) for i in range(0, len(cand) - nb + 1)]
                done = set()
                combos = [x for x in combos if not (tuple(y.get_id() for y in x) in done or
                                                    done.add(tuple(y.get_id() for y in x)))][:220]
                for idx in combos:
                    body, dims = self.inst(fd, args, idx)
                    rng = self._inrange(idx, dims)
                    if fd.op == "any":
                        facts.append(z3.Implies(z3.And(*(rng + [z3.Not(term)])), z3.Not(body[0])))
                    else:
                        sel = [body[1]] if len(body) > 1 else []
                        facts.append(z3.Implies(z3.And(*(rng + sel)),
                                                body[0] <= term if fd.op == "max" else body[0] >= term))
        for fd, args, term in apps:
            if fd.op in ("sum", "isum"):
                if self._is01(fd.body[0]):
                    _, dims = self.inst(fd, args, [z3.IntVal(0)] * len(fd.bound))
                    n = dims[0]
                    for d in dims[1:]:
                        n = n * d
                    facts.append(z3.Implies(z3.And(*[d >= 0 for d in dims]),
                                            term <= (z3.ToReal(n) if fd.op == "sum" else n)))
                    self._note("count at most the size")
                if z3.is_rational_value(fd.body[0]) or z3.is_int_value(fd.body[0]):
                    _, dims = self.inst(fd, args, [z3.IntVal(0)] * len(fd.bound))
                    n = dims[0]
                    for d in dims[1:]:
                        n = n * d
                    n = z3.ToReal(n) if fd.op == "sum" else n
                    facts.append(z3.Implies(z3.And(*[d >= 0 for d in dims]), term == fd.body[0] * n))
                    self._note("sum of a constant")
                    continue
                if depth < 3:
                    sg = self._sign(base, fd, args, depth)
                    if sg:
                        facts.append(term >= 0)
                        self._note("sum of non-negatives")
                        nb = len(fd.bound)
                        cz = [z3.IntVal(0)] + cand[-6:]
                        combos = [(k,) * nb for k in cz] + \
                            [tuple(cz[i:i + nb]) for i in range(1, len(cz) - nb + 1) if nb > 1] + \
                            self._match(fd, ground)[:20]
                        for idx in combos:
                            body, dims = self.inst(fd, args, idx)
                            facts.append(z3.Implies(z3.And(*self._inrange(idx, dims)), term >= body[0]))
                        if level >= 2 and self._zero(base, fd, args, depth):
                            facts.append(term == 0)
                            self._note("sum of zeros")
        if level >= 2:
            for a, b in itertools.combinations(apps, 2):
                if a[0].op != b[0].op or len(a[0].bound) != len(b[0].bound) or \
                        len(a[0].body) != len(b[0].body) or a[0].extra != b[0].extra:
                    continue
                if depth >= 3 or time.time() - self.t0 > self.budget_s:
                    continue
                if self._pointwise_equal(base, a, b, depth):
                    facts.append(a[2] == b[2])
                    self._note("congruence of " + a[0].op)
                elif a[0].op in ("sum", "isum") and depth == 0:
                    if a[0].op == "sum" and not (a[0].decl.eq(b[0].decl) and a[0].params):
                        continue
                    for x, y in ((a, b), (b, a)):
                        g = self._pointwise_le(base, x, y, depth)
                        if g is not None:
                            facts.append(z3.Implies(g, x[2] <= y[2]))
                            self._note("monotonicity of " + a[0].op)
        if level >= 3:
            facts += self._expand(apps)
        return facts

    def _any_sel(self, fd, args):
        """term: some element of the masked box is selected"""
        nb = len(fd.bound)
        sub = list(zip(fd.params, args))
        dims = [z3.substitute(d, *sub) if sub else d for d in fd.dims]
        bound = [self.bvar() for _ in range(nb)]
        body, _ = self.inst(fd, args, bound)
        return self.functional("any", dims, None, sort=z3.BoolSort(), bound=bound, body=[body[1]])

    def _sign(self, base, fd, args, depth):
        sk = [z3.Int("sk!s%d" % n) for n in range(len(fd.bound))]
        body, dims = self.inst(fd, args, sk)
        for k in sk:
            self.index_vars[k.get_id()] = k
        prem = self._inrange(sk, dims)
        key = ("sign", body[0].get_id(), tuple(d.get_id() for d in dims), len(base), depth)
        if key not in self.lemma_memo:
            r = self._solve(base + prem, body[0] >= 0, 1500, depth + 1, max_level=1)
            self.lemma_memo[key] = (r[0] == "proved", body, dims)
        return self.lemma_memo[key][0]

    @staticmethod
    def _is01(e):
        if not z3.is_app_of(e, z3.Z3_OP_ITE):
            return False
        return all(z3.is_rational_value(x) and x.as_fraction() in (0, 1) or z3.is_int_value(x) and x.as_long() in (0, 1)
                   for x in e.children()[1:])

    def _ground(self, exprs):
        out, seen = {}, set()
        for e in exprs:
            for x in walk(e, seen):
                if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.setdefault(x.decl().name(), []).append(x)
        return out

    def _match(self, fd, ground):
        """index tuples at which the array elements of the body occur"""
        res, ids, pats = [], set(), []
        pos = {b.get_id(): n for n, b in enumerate(fd.bound)}
        seen = set()
        for e in fd.body:
            for x in walk(e, seen):
                if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    m = {pos[a.get_id()]: n for n, a in enumerate(x.children()) if a.get_id() in pos}
                    if len(m) == len(fd.bound):
                        pats.append((x.decl().name(), m))
        for name, m in pats:
            for g in ground.get(name, []):
                t = tuple(g.arg(m[n]) for n in range(len(fd.bound)))
                k = tuple(x.get_id() for x in t)
                if k not in ids and all(z3.is_int(x) for x in t):
                    ids.add(k)
                    res.append(t)
        return res[:150]

    def _pointwise_le(self, base, a, b, depth):
        """None, or a condition (on the parameters) under which a's body is at most b's"""
        sk = [z3.Int("sk!l%d!%d" % (depth, n)) for n in range(len(a[0].bound))]
        for k in sk:
            self.index_vars[k.get_id()] = k
        ba, da = self.inst(a[0], a[1], sk)
        bb, db = self.inst(b[0], b[1], sk)
        if not all(x.eq(y) for x, y in zip(da, db)):
            return None
        key = ("le", ba[0].get_id(), bb[0].get_id(), len(base), depth)
        if key not in self.lemma_memo:
            r = self._solve(base + self._inrange(sk, da), ba[0] <= bb[0], 1000, depth + 1, max_level=1)
            self.lemma_memo[key] = (TRUE if r[0] == "proved" else None, ba, bb)
        return self.lemma_memo[key][0]

    def _zero(self, base, fd, args, depth):
        sk = [z3.Int("sk!z%d" % n) for n in range(len(fd.bound))]
        body, dims = self.inst(fd, args, sk)
        for k in sk:
            self.index_vars[k.get_id()] = k
        key = ("zero", body[0].get_id(), tuple(d.get_id() for d in dims), len(base), depth)
        if key not in self.lemma_memo:
            save = self.cand_idx
            self.cand_idx = save + sk
            r = self._solve(base + self._inrange(sk, dims), body[0] == 0, 1500, depth + 1, max_level=2)
            self.cand_idx = save
            self.lemma_memo[key] = (r[0] == "proved", body, dims)
        return self.lemma_memo[key][0]

    def _pointwise_equal(self, base, a, b, depth):
        nb = len(a[0].bound)
        if self._pointwise_equal1(base, a, b, depth, tuple(range(nb))):
            return True
        if a[0].op in ("sum", "isum", "any", "max", "min") and 1 < nb < 4 and depth < 2:
            # the axes of the box in another order
            _, da = self.inst(a[0], a[1], [z3.IntVal(0)] * nb)
            _, db = self.inst(b[0], b[1], [z3.IntVal(0)] * nb)
            for p in list(itertools.permutations(range(nb)))[1:]:
                if all(da[n].eq(db[p[n]]) for n in range(nb)) and self._pointwise_equal1(base, a, b, depth, p):
                    return True
        return False

    def _pointwise_equal1(self, base, a, b, depth, perm):
        sk = [z3.Int("sk!e%d!%d" % (depth, n)) for n in range(len(a[0].bound))]
        for k in sk:
            self.index_vars[k.get_id()] = k
        ba, da = self.inst(a[0], a[1], sk)
        inv = [None] * len(sk)
        for n, q in enumerate(perm):
            inv[q] = sk[n]
        bb, db = self.inst(b[0], b[1], inv)
        db = [db[q] for q in perm]
        key = ("pw", tuple(x.get_id() for x in ba + bb + da + db), len(base), depth)
        if key in self.lemma_memo:
            return self.lemma_memo[key][0]
        dimeq = [x == y for x, y in zip(da, db)]
        goal = z3.And(*([x == y for x, y in zip(ba, bb)] + [TRUE]))
        r = ("unknown",)
        if all(x.eq(y) for x, y in zip(da, db)) or \
                self._solve(base, z3.And(*dimeq), 1000, 3, max_level=1)[0] == "proved":
            if self._plausible(ba, bb):
                save = self.cand_idx
                self.cand_idx = (save + sk)
                r = self._solve(base + self._inrange(sk, da), goal, 3000, depth + 1, max_level=2)
                self.cand_idx = save
        self.lemma_memo[key] = (r[0] == "proved", ba, bb, da, db)
        return r[0] == "proved"

    @staticmethod
    def _plausible(ba, bb):
        return all(x.sort() == y.sort() for x, y in zip(ba, bb))

    def _monos(self, e, cap=60):
        """the monomials of a polynomial: lists of ("mul"|"inv", factor)"""
        if z3.is_add(e):
            out = []
            for x in e.children():
                m = self._monos(x, cap)
                if m is None:
                    return None
                out += m
            return out if len(out) <= cap else None
        power = z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)) and \
            e.arg(1).as_fraction().denominator == 1 and 0 < e.arg(1).as_fraction() < 8
        if z3.is_mul(e) or power:
            kids = e.children() if z3.is_mul(e) else [e.arg(0)] * int(e.arg(1).as_fraction())
            out = [[]]
            for x in kids:
                m = self._monos(x, cap)
                if m is None or len(out) * len(m) > cap:
                    return None
                out = [a + b for a in out for b in m]
            return out
        if z3.is_sub(e):
            c = e.children()
            out = self._monos(c[0], cap)
            for x in c[1:]:
                m = self._monos(x, cap)
                if out is None or m is None:
                    return None
                out = out + [[("mul", z3.RealVal(-1))] + y for y in m]
            return out
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            m = self._monos(e.arg(0), cap)
            return None if m is None else [[("mul", z3.RealVal(-1))] + y for y in m]
        if z3.is_div(e):
            m = self._monos(e.arg(0), cap)
            return None if m is None else [y + [("inv", e.arg(1))] for y in m]
        return [[("mul", e)]]

    def _expand(self, apps):
        """Linearity: a sum equals the sum of the sums of its monomials."""
        facts = []
        for fd, args, term in apps:
            if fd.op != "sum":
                continue
            bv = [self.bvar() for _ in fd.bound]
            body, dims = self.inst(fd, args, bv)
            mask, poly = TRUE, body[0]
            if z3.is_app_of(poly, z3.Z3_OP_ITE):
                c, t, e = poly.children()
                if z3.is_rational_value(e) and e.as_fraction() == 0:
                    mask, poly = c, t
                elif z3.is_rational_value(t) and t.as_fraction() == 0:
                    mask, poly = z3.Not(c), e
            mons = self._monos(z3.simplify(poly))
            if mons is None:
                continue
            bids = {b.get_id() for b in bv}

            def dep(e):
                return any(x.get_id() in bids for x in walk(e))
            rhs = []
            for fs in mons:
                coef, inner = z3.RealVal(1), z3.RealVal(1)
                for kind, f in fs:
                    if dep(f):
                        inner = inner * f if kind == "mul" else inner / f
                    else:
                        coef = coef * f if kind == "mul" else coef / f
                inner = z3.simplify(inner)
                bodym = inner if z3.is_true(mask) else z3.If(mask, inner, z3.RealVal(0))
                if z3.is_rational_value(inner) and inner.as_fraction() == 1 and not z3.is_true(mask):
                    # the number of selected elements
                    rhs.append(coef * z3.ToReal(self.functional(
                        "isum", dims, None, sort=z3.IntSort(), bound=bv,
                        body=[z3.If(mask, z3.IntVal(1), z3.IntVal(0))])))
                    continue
                rhs.append(coef * self.functional("sum", dims, None, bound=bv, body=[bodym]))
            if len(rhs) == 1 and z3.simplify(rhs[0]).eq(term):
                continue
            tot = rhs[0]
            for x in rhs[1:]:
                tot = tot + x
            facts.append(term == tot)
            self._note("linearity of sum")
        return facts

    def _solve(self, hyps, goal, timeout_ms, depth=0, max_level=4):
        """('proved'|'refuted'|'unknown', backend, model)"""
        r = self._solve1(hyps, goal, timeout_ms, depth, max_level, False)
        if r[0] != "proved" and depth == 0:
            n = len(self._relevant(hyps, goal, True))
            if n > len(self._relevant(hyps, goal)):
                r = self._solve1(hyps, goal, timeout_ms, depth, max_level, True)
        return r

    def _solve1(self, hyps, goal, timeout_ms, depth, max_level, deep):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return "proved", "simplifier", None
        neg = z3.Not(goal)
        rel = self._relevant(hyps, goal, deep)
        last = ("unknown", "z3", None)
        # 1: without lemmas
        r, m, s, dt = self._query(rel + [neg], timeout_ms if depth else min(timeout_ms, 4000), True)
        if r == z3.unsat:
            return "proved", "z3", None
        has = bool(self.fapps(rel + [neg]))
        if r == z3.sat and not has:
            if len(rel) < len(hyps):
                r, m, s, dt = self._query(list(hyps) + [neg], timeout_ms, True)
                if r == z3.unsat:
                    return "proved", "z3", None
            if r == z3.sat:
                return "refuted", "z3", m
        facts = []
        for level in range(1, min(max_level, 3) + 1):
            if not has:
                break
            f = self._lemmas(list(hyps), rel + [neg] + facts, level, depth)
            # newly introduced functionals (from expansion) get their own lemmas
            facts = facts + f
            if level == 3 and depth < 2:
                facts = facts + self._lemmas(list(hyps), facts, 2, depth)
            r, m, s, dt = self._query(rel + [neg] + facts, timeout_ms, True)
            if r == z3.unsat:
                return "proved", "z3", None
            last = ("refuted" if r == z3.sat else "unknown", "z3", m)
        if r == z3.unknown and depth == 0:
            out = self._cvc5(s, timeout_ms)
            if out == "unsat":
                return "proved", "cvc5", None
            if len(rel) < len(hyps):
                r, m, s, dt = self._query(list(hyps) + [neg] + facts, timeout_ms, True)
                if r == z3.unsat:
                    return "proved", "z3", None
            return ("unknown", "z3+cvc5", None)
        return last

    def _relevant(self, hyps, goal, deep=False):
        """Hypotheses sharing (transitively) a symbol with the goal (deep: or
        with the definition of a functional)."""
        def syms(e):
            return {x.decl().name() for x in walk(e) if z3.is_app(x) and
                    x.decl().kind() == z3.Z3_OP_UNINTERPRETED}
        hs = [(h, syms(h)) for h in hyps]
        cur = syms(goal)
        # definitions of functionals pull in their symbols
        def close(cs):
            todo, seen = list(cs), set()
            while todo:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                if n in self.fdefs:
                    for b in self.fdefs[n].body + self.fdefs[n].dims:
                        todo.extend(syms(b))
            return cs | seen
        cur = close(cur)
        if deep:
            hs = [(h, close(sy)) for h, sy in hs]
        used = [False] * len(hs)
        changed = True
        while changed:
            changed = False
            for i, (h, sy) in enumerate(hs):
                if not used[i] and (sy & cur or not sy):
                    used[i] = True
                    new = close(sy)
                    if not new <= cur:
                        cur |= new
                        changed = True
        return [h for (h, _), u in zip(hs, used) if u]

    def _under(self, hyps, g):
        """g with the literals of the hypotheses replaced by their truth values"""
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        pairs, todo = [], list(hyps)
        while todo:
            h = todo.pop()
            if z3.is_and(h):
                todo.extend(h.children())
                continue
            h = nf(z3.simplify(h))
            if z3.is_and(h):
                todo.extend(h.children())
            elif z3.is_not(h):
                pairs.append((h.arg(0), F))
            elif not z3.is_true(h) and not z3.is_false(h):
                pairs.append((h, T))
        g0 = nf(z3.simplify(g))
        if not pairs:
            return g0
        g1 = z3.substitute(g0, *pairs)
        return g0 if g1.eq(g0) else nf(z3.simplify(g1))

    def resolve(self, e, full_ms=0):
        """e with every condition inside it that the path decides replaced by its truth
        value: integer conditions by a linear query, others (full_ms > 0) by a full one"""
        e = z3.simplify(e)
        s = z3.Solver()
        s.set("timeout", 500)
        for h in self.pc:
            if all(not z3.is_app(x) or x.sort().kind() != z3.Z3_REAL_SORT for x in walk(h)):
                s.add(h)
        tried = set()
        for _ in range(30):
            conds = {}
            for x in walk(e):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                    for a in walk(x.arg(0)):
                        if z3.is_bool(a) and z3.is_app(a) and a.decl().kind() not in \
                                (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) and \
                                not any(y.decl().kind() == z3.Z3_OP_ITE for y in walk(a) if z3.is_app(y)):
                            conds[a.get_id()] = a
            pairs = []
            for i, a in conds.items():
                if i in tried:
                    continue
                tried.add(i)
                real = any(z3.is_app(x) and x.sort().kind() == z3.Z3_REAL_SORT for x in walk(a))
                for val in (True, False):
                    q = z3.Not(a) if val else a
                    if not real:
                        s.push()
                        s.add(q)
                        r = s.check()
                        s.pop()
                    elif full_ms:
                        r = self._query(self._relevant(self.pc, q) + [q], full_ms)[0]
                    else:
                        r = z3.unknown
                    if r == z3.unsat:
                        pairs.append((a, z3.BoolVal(val)))
                        break
            if not pairs:
                return e
            e = z3.simplify(z3.substitute(e, *pairs))
        return e

    def nra(self, hyps, goal, timeout_ms=8000):
        """is goal a consequence of hyps in real arithmetic alone, every other term taken as
        an unknown number?"""
        names = {}

        def go(x):
            if not z3.is_app(x):
                return x
            k = x.decl().kind()
            if z3.is_rational_value(x) or k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
                return x
            if z3.is_real(x) and k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
                i = x.get_id()
                if i not in names:
                    names[i] = (x, z3.Real("u!%d" % len(names)))
                return names[i][1]
            return x.decl()(*[go(y) for y in x.children()]) if x.num_args() else x
        s = z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", timeout_ms)
        try:
            for h in list(hyps) + [z3.Not(goal)]:
                s.add(go(nf(z3.simplify(h))))
            self.queries += 1
            t = time.time()
            r = s.check()
            self.solver_s += time.time() - t
        except z3.Z3Exception:
            return False
        return r == z3.unsat

    def prove_nra(self, name, hyps, goal):
        """an obligation in real arithmetic; the hypotheses are proved first"""
        ok = all([self.prove("%s (premise %d)" % (name, i), h) for i, h in enumerate(hyps)])
        if not ok:
            return self.prove(name, goal)
        t = time.time()
        if ideal.follows(hyps, goal):
            self.obligs.append(Obligation(name, self.fn, "proved", "polynomial division", round(time.time() - t, 4), path=self.paths))
            self.assume(goal)
            return True
        if self.nra(hyps, goal):
            self.obligs.append(Obligation(name, self.fn, "proved", "z3 nlsat", round(time.time() - t, 4), path=self.paths))
            self.assume(goal)
            return True
        return self.prove(name, goal)

    def prove(self, name, goal, model_of=None, timeout_ms=None):
        t = time.time()
        goal = zb(goal)
        if time.time() - self.t0 > self.budget_s:
            raise Budget("time budget of %ss" % self.budget_s)
        hyps, g = list(self.pc), goal
        while z3.is_implies(g):
            hyps.append(g.arg(0))
            g = g.arg(1)
        g = self._under(hyps, g)
        if z3.is_true(g):
            st, backend, m = "proved", "z3 simplifier", None
        else:
            st, backend, m = self._solve(hyps, g, timeout_ms or self.timeout_ms)
        model = None
        if m is not None:
            model = {}
            for k, v in self.inputs.items():
                try:
                    model[k] = str(m.eval(v, model_completion=True))
                except Exception:
                    pass
        o = Obligation(name, self.fn, st, backend, round(time.time() - t, 4),
                       detail=None if st == "proved" else str(z3.simplify(goal))[:1500],
                       model=model, path=self.paths,
                       tainted=self.opaque or self.lost and any(contains_prefix(h, "lost!") for h in hyps + [g]) or
                       st == "refuted" and self.rounded(g))
        self.obligs.append(o)
        return st == "proved"

    def rounded(self, goal):
        """does the goal depend on an irrational number the program rounds (its value is
        then not the one real arithmetic gives, so a refutation says nothing)?"""
        seen, done, todo = set(), set(), [goal]
        while todo:
            for x in walk(todo.pop(), seen):
                if z3.is_rational_value(x) and x.denominator_as_long() > 2 ** 40:
                    return True
                n = x.decl().name() if z3.is_app(x) else None
                if n in self.fdefs and n not in done:
                    done.add(n)
                    todo += [b for b in self.fdefs[n].body if z3.is_expr(b)]
        return False

    def lemma(self, name, fact):
        """an intermediate obligation: proved, then available to what follows"""
        if self.prove("lemma: " + name, fact):
            self.assume(fact)
            return True
        return False

    # -- exploration -----------------------------------------------------------
    def explore(self, harness):
        """Run harness(self) over all feasible paths."""
        global CUR
        stack = [[]]
        while stack:
            if self.paths >= self.max_paths:
                self.undecided.append("more than %d paths" % self.max_paths)
                break
            prefix = stack.pop()
            self.reset_path()
            fr = Frame(prefix)
            self.frames = [fr]
            prev, CUR = CUR, self
            try:
                harness(self)
                self.paths += 1
            except Infeasible:
                pass
            except (Unsupported, Budget) as e:
                self.paths += 1
                self.undecided.append("%s: %s" % (type(e).__name__, e))
                if isinstance(e, Budget):
                    stack = []
            except Exception as e:
                # an exception the contract does not expect: a failed obligation
                # when the repository's code raises it explicitly, else undecided
                self.paths += 1
                where = raised_in_repo(e)
                if where:
                    model = None
                    if self.solver.check() == z3.sat:
                        m = self.solver.model()
                        model = {k: str(m.eval(v, model_completion=True)) for k, v in self.inputs.items()}
                    self.obligs.append(Obligation(
                        "no unexpected exception", self.fn, "refuted", "execution", 0.0,
                        detail="%s: %s at %s" % (type(e).__name__, e, where), model=model,
                        path=self.paths, tainted=self.opaque))
                else:
                    self.undecided.append("%s: %s" % (type(e).__name__, "".join(
                        traceback.format_exception(e))[-1200:]))
            finally:
                CUR = prev
            stack.extend(fr.forks)
        return self

    def sub_explore(self, thunk, restore):
        """Explore all paths of thunk() from the current state.  Returns a list
        of (condition, result, exception); restore() resets mutable state."""
        out = []
        stack = [[]]
        base_len = len(self.pc)
        while stack:
            prefix = stack.pop()
            fr = Frame(prefix)
            self.frames.append(fr)
            self.solver.push()
            try:
                try:
                    res, exc = thunk(), None
                except (Unsupported, Budget):
                    raise
                except Infeasible:
                    res, exc = None, Infeasible
                except Exception as e:
                    res, exc = None, e
                if exc is not Infeasible:
                    cond = And_(*self.pc[base_len:])
                    out.append((zb(cond), res, exc))
            finally:
                self.frames.pop()
                self.solver.pop()
                del self.pc[base_len:]
                restore()
            stack.extend(fr.forks)
            if len(out) > 64:
                raise Unsupported("too many paths in a loop body")
        return out
