"""Order of real terms: linear forms over maxima and minima, inputs known to be non-negative."""
from fractions import Fraction
from terms import *
from sym import flin, is_atom

INF = ("flt",)


def isinf(t):
    return t.k == "flt" and t.a[0] in ("inf", "-inf")


def ops_of(t):
    """(kind, operands) of a maximum, minimum or absolute value"""
    if t.k == "fop" and t.a[0] in ("Max", "Min"):
        out = []
        for x in t.a[1:]:
            if x.k == "fop" and x.a[0] == t.a[0]:
                out += ops_of(x)[1]
            else:
                out.append(x)
        return t.a[0], out
    if t.k == "fop" and t.a[0] == "Abs":
        return "Max", [t.a[1], mk("fop", "Neg", t.a[1])]
    return None, None


class Reals:
    """nonneg(atom) -> the input cannot be negative"""

    def __init__(self, nonneg, limit=3000):
        self.nonneg, self.limit = nonneg, limit
        self.memo = {}

    def add(self, l, o, k):
        c, d = l
        c2, d2 = flin(o)
        d = dict(d)
        for a, v in d2.items():
            x = d.get(a, 0) + k * v
            if x:
                d[a] = x
            else:
                d.pop(a, None)
        return c + k * c2, d

    def form(self, x, y=None):
        l = self.add((Fraction(0), {}), x, 1)
        return self.add(l, y, -1) if y is not None else l

    def ge(self, x, y, m=0, strict=False):
        """x >= y + m for all values of the inputs (proved), else False"""
        if isinf(x) or isinf(y):
            return x.k == "flt" and x.a[0] == "inf" or y.k == "flt" and y.a[0] == "-inf"
        key = (x, y, m, strict)
        if key not in self.memo:
            self.left = self.limit
            self.seen = set()
            self.memo[key] = self.prove(self.form(x, y), Fraction(m), strict)
        return self.memo[key]

    def follows(self, x, y, facts, strict=False):
        """x >= y, from one of the comparisons that hold on the path"""
        for c in facts:
            neg = c.k == "not"
            if neg:
                c = c.a[0]
            if c.k != "fcmp" or c.a[0] == "Eq":
                continue
            a, b = (c.a[1], c.a[2]) if neg else (c.a[2], c.a[1])      # a >= b
            st = (c.a[0] == "Lt") != neg
            if isinf(a) or isinf(b):
                continue
            l = self.form(x, y)
            l = self.add(self.add(l, a, -1), b, 1)
            self.left, self.seen = self.limit, set()
            if self.prove(l, Fraction(0), strict and not st):
                return True
        return False

    def prove(self, l, m, strict):
        self.left -= 1
        if self.left < 0:
            return False
        c, d = l
        if (c > m if strict else c >= m) and all(k > 0 and self.nonneg(a) for a, k in d.items()):
            return True
        key = (c, tuple(sorted(((a.id, k) for a, k in d.items()))))
        if key in self.seen:
            return False
        neg = {a for a, k in d.items() if k < 0}
        pos = {a for a, k in d.items() if k > 0}
        any_, all_ = [], []
        for a, k in d.items():
            o, xs = ops_of(a)
            if o is None:
                if k < 0 and a.k == "in" and self.nonneg(a) or k > 0 and self.nonneg(a):
                    continue
                continue
            ((any_ if (o == "Max") == (k > 0) else all_)).append((a, k, xs))
        # choices that cancel another maximum first
        ch = []
        for a, k, xs in any_:
            for x in xs:
                if isinf(x):
                    continue
                dx = flin(x)[1]
                sc = sum(2 for b, v in dx.items() if ops_of(b)[0] and (k * v > 0 and b in neg or k * v < 0 and b in pos)) - sum(1 for b in dx if ops_of(b)[0])
                ch.append((-sc, len(dx), a.id, x.id, a, k, x))
        ch.sort(key=lambda q: q[:4])
        best = [q for q in ch if q[0] < 0]
        rest = [q for q in ch if q[0] >= 0]

        def take(a, k, x):
            d2 = dict(d)
            del d2[a]
            return self.add((c, d2), x, k)
        for q in best:
            if self.prove(take(*q[4:]), m, strict):
                return True
        for a, k, xs in all_[:1]:
            if all(isinf(x) or self.prove(take(a, k, x), m, strict) for x in xs):
                return True
        if not all_:
            for q in rest:
                if self.prove(take(*q[4:]), m, strict):
                    return True
        self.seen.add(key)
        return False

    def decide(self, c):
        """truth of a comparison of reals, or None"""
        o, x, y = c.a
        if o == "Lt":
            return True if self.ge(y, x, 0, True) else False if self.ge(x, y) else None
        if o == "Le":
            return True if self.ge(y, x) else False if self.ge(x, y, 0, True) else None
        if o == "Eq":
            f = self.form(x, y)
            if not f[1]:
                return f[0] == 0
            if self.ge(x, y, 0, True) or self.ge(y, x, 0, True):
                return False
        return None
