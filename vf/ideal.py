"""Polynomial identities modulo hypotheses: goal a == b follows from equations h_i = 0
when a - b reduces to zero by them (ideal membership, by multivariate division; sound,
not complete).  Terms that are not polynomial are taken as unknowns, x / d as x * q with
q * d == 1 where d != 0 is among the hypotheses."""
from fractions import Fraction
import z3

LIMIT = 4000


class Poly(dict):
    pass


def _add(p, q, k=1):
    r = Poly(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(a, b):
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def _mul(p, q):
    if len(p) * len(q) > LIMIT:
        raise OverflowError
    r = Poly()
    for m, c in p.items():
        for n, d in q.items():
            t = _mmul(m, n)
            v = r.get(t, 0) + c * d
            if v:
                r[t] = v
            else:
                r.pop(t, None)
    return r


def _div(m, n):
    """monomial m / n or None"""
    d = dict(m)
    for v, e in n:
        if d.get(v, 0) < e:
            return None
        d[v] -= e
        if not d[v]:
            del d[v]
    return tuple(sorted(d.items()))


class Ring:
    def __init__(self, nonzero):
        self.ids, self.keep, self.nonzero, self.rules, self.alias = {}, [], nonzero, [], {}

    def var(self, x):
        i = x.get_id()
        if i not in self.ids:
            self.ids[i] = len(self.ids)
            self.keep.append(x)
        return self.ids[i]

    def poly(self, x):
        x = x if not z3.is_int_value(x) else z3.RealVal(x.as_long())
        if z3.is_rational_value(x):
            f = x.as_fraction()
            return Poly({(): Fraction(f)}) if f else Poly()
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = Poly()
            for y in x.children():
                r = _add(r, self.poly(y))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(x.arg(0))
            for y in x.children()[1:]:
                r = _add(r, self.poly(y), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return _add(Poly(), self.poly(x.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = Poly({(): Fraction(1)})
            for y in x.children():
                r = _mul(r, self.poly(y))
            return r
        if k == z3.Z3_OP_DIV:
            d = self.poly(x.arg(1))
            if list(d) == [()]:
                return _mul(self.poly(x.arg(0)), Poly({(): 1 / d[()]}))
            if any(d == n for n in self.nonzero):
                key = ("recip", tuple(sorted(d.items())))
                if key not in self.alias:
                    v = self.alias[key] = len(self.ids)
                    self.ids[key] = v
                    q = Poly({((v, 1),): Fraction(1)})
                    self.rules.append(_add(_mul(q, d), Poly({(): Fraction(1)}), -1))
                q = Poly({((self.alias[key], 1),): Fraction(1)})
                return _mul(self.poly(x.arg(0)), q)
        return Poly({((self.var(x), 1),): Fraction(1)})


def _lead(p):
    return max(p, key=lambda m: (sum(e for _, e in m), m))


def follows(hyps, goal, steps=3000):
    """does the equation goal follow from the equations and disequations hyps?"""
    goal = z3.simplify(goal) if not z3.is_eq(goal) else goal
    if not z3.is_eq(goal) or goal.arg(0).sort().kind() != z3.Z3_REAL_SORT:
        return False
    eqs, nz = [], []
    for h in hyps:
        if z3.is_eq(h) and h.arg(0).sort().kind() == z3.Z3_REAL_SORT:
            eqs.append(h)
        elif z3.is_not(h) and z3.is_eq(h.arg(0)):
            nz.append(h.arg(0))
        elif z3.is_distinct(h) and h.num_args() == 2:
            nz.append(h)
    try:
        R = Ring([])
        for e in nz:
            if e.arg(0).sort().kind() == z3.Z3_REAL_SORT:
                R.nonzero.append(_add(R.poly(e.arg(0)), R.poly(e.arg(1)), -1))
        rules = [_add(R.poly(e.arg(0)), R.poly(e.arg(1)), -1) for e in eqs]
        p = _add(R.poly(goal.arg(0)), R.poly(goal.arg(1)), -1)
        rules = [r for r in rules + R.rules if r]
        leads = [(_lead(r), r) for r in rules]
        for _ in range(steps):
            if not p:
                return True
            for m in sorted(p, key=lambda m: (sum(e for _, e in m), m), reverse=True):
                for ld, r in leads:
                    q = _div(m, ld)
                    if q is not None:
                        p = _add(p, _mul(Poly({q: -p[m] / r[ld]}), r))
                        break
                else:
                    continue
                break
            else:
                return False
    except OverflowError:
        pass
    return False
