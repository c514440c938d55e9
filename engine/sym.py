"""Running one function on symbolic arguments and collecting its final states."""
from fractions import Fraction
from terms import *
from core import *


class Path:
    def __init__(self, e, st, ret):
        self.e, self.st, self.ret = e, st, ret

    def val(self, name):
        """final value of an argument cell kept with keep="""
        return self.e.loadref(self.st, self.st.mon["keep:" + name])

    @property
    def opaque(self):
        """a decision of this path rests on a value the analysis does not model"""
        return self.st.mon.get("opaque")

    def decide(self, c):
        return self.e.decide(self.st, c)


def inp(name, ty=None):
    t = mk("in", name)
    if ty is not None:
        t.ty = ty
    return t


class Runner:
    """collects the paths of one call; cut=True in .cut when some loop or the budget was cut"""

    def __init__(self, ck, f, max_time=20, unroll=60, which="lib", handlers=None, join=False, max_rec=3):
        self.ck, self.f = ck, f
        self.e = Eng(ck.prog(which), max_time=max(0.01, min(max_time, ck.left())), max_rec=max_rec)
        self.e.join_heads = True
        self.e.unroll = 0 if join else unroll
        self.e.track_opaque = True
        if handlers:
            self.e.handlers.update(handlers)
        self.paths, self.panics, self.cut = [], [], False
        self.st = self.e.new_state()

    def cell(self, name, val):
        r = self.e.heap(self.st, val)
        self.st.mon["keep:" + name] = r
        return r

    def go(self, args, on_path=None, st=None):
        e = self.e
        e.on_panic = lambda e_, s, what, sp: self.panics.append((s, what, e.p.line(sp)))

        def ret(e_, s, v):
            p = Path(e, s, v)
            if on_path is not None:
                on_path(p)
            else:
                self.paths.append(p)
            return []
        st = st or self.st
        e.push(st, self.f, args, None, None)
        try:
            e.explore([st], ret)
        except Budget:
            self.cut = True
        if e.stats.get("cut") or e.stats["recursion_cut"]:
            self.cut = True
        return self.paths


# --------------------------------------------------------------- float terms as linear forms
def flin(t):
    """(constant, {atom: coefficient}) of a numeric term, exact rationals"""
    if t.k == "int":
        return Fraction(t.a[0]), {}
    if t.k == "flt":
        try:
            return Fraction(float(t.a[0])), {}
        except (ValueError, OverflowError):
            return Fraction(0), {t: Fraction(1)}
    if t.k == "lin":
        return Fraction(t.a[0]), {a: Fraction(c) for a, c in t.a[1]}
    if t.k == "fop":
        o = t.a[0]
        if o in ("Add", "Sub"):
            c, d = flin(t.a[1])
            c2, d2 = flin(t.a[2])
            s = 1 if o == "Add" else -1
            d = dict(d)
            for a, k in d2.items():
                d[a] = d.get(a, 0) + s * k
            return c + s * c2, {a: k for a, k in d.items() if k}
        if o == "Neg":
            c, d = flin(t.a[1])
            return -c, {a: -k for a, k in d.items()}
        if o in ("Mul", "Div"):
            x, y = flin(t.a[1]), flin(t.a[2])
            if not y[1] and (o == "Mul" or y[0]):
                k = y[0] if o == "Mul" else 1 / y[0]
                return x[0] * k, {a: v * k for a, v in x[1].items() if v * k}
            if o == "Mul" and not x[1]:
                return y[0] * x[0], {a: v * x[0] for a, v in y[1].items() if v * x[0]}
    if t.k == "op" and t.a[0] == "i2f":
        c, d = flin(t.a[1])
        if len(d) > 1 or c and d:
            out = {}
            for a, k in d.items():
                out[mk("op", "i2f", a)] = k
            return c, out
        if d:
            (a, k), = d.items()
            return c, {mk("op", "i2f", a): k}
        return c, {}
    if t.k == "op" and t.a[0] == "Neg" and len(t.a) == 2:
        c, d = flin(t.a[1])
        return -c, {a: -k for a, k in d.items()}
    return Fraction(0), {t: Fraction(1)}


def fsame(x, y):
    return x is y or flin(x) == flin(y)


def leaves(t, op):
    if t.k == "fop" and t.a[0] == op:
        return leaves(t.a[1], op) + leaves(t.a[2], op)
    return [t]


def fsub(x, y):
    c, d = flin(x)
    c2, d2 = flin(y)
    d = dict(d)
    for a, k in d2.items():
        d[a] = d.get(a, 0) - k
    return c - c2, {a: k for a, k in d.items() if k}


def locs(f):
    """(type, name) of the locals of a function"""
    return f.raw["locals"] if isinstance(f.raw, dict) else f.locals


# --------------------------------------------------------------- identity testing of extracted expressions
import math
import random

ATOMS = ("in", "fld", "elem", "len", "strlen", "*")


class NoValue(Exception):
    pass


def is_atom(t):
    return t.k == "in" or t.k in ("fld", "*", "elem") and (not isinstance(t.a[0], T) or is_atom(t.a[0]) or t.a[0].k in ("mget",)) or t.k in ("len", "strlen")


def evalt(t, env, draw):
    """numeric value of a term; draw(atom) supplies the value of an input"""
    v = env.get(t)
    if v is not None:
        return v
    k = t.k
    if k == "int":
        v = Fraction(t.a[0])
    elif k == "flt":
        f = float(t.a[0])
        if f != f or f in (math.inf, -math.inf):
            raise NoValue()
        v = Fraction(f)
    elif k == "lin":
        v = Fraction(t.a[0]) + sum(c * evalt(a, env, draw) for a, c in t.a[1])
    elif k == "fop":
        o = t.a[0]
        xs = [evalt(x, env, draw) for x in t.a[1:]]
        if o == "Add":
            v = xs[0] + xs[1]
        elif o == "Sub":
            v = xs[0] - xs[1]
        elif o == "Mul":
            v = xs[0] * xs[1]
        elif o == "Div":
            if xs[1] == 0:
                raise NoValue()
            v = xs[0] / xs[1]
        elif o == "Neg":
            v = -xs[0]
        elif o == "Max":
            v = max(xs)
        elif o == "Min":
            v = min(xs)
        elif o == "Sgn":
            v = Fraction(-1 if xs[0] < 0 else 1)
        elif o == "Abs":
            v = abs(xs[0])
        elif o == "Sqrt":
            if xs[0] < 0:
                raise NoValue()
            v = Fraction(math.sqrt(xs[0])).limit_denominator(10 ** 9)
        elif o in ("Sin", "Cos", "Rad"):
            v = Fraction({"Sin": math.sin, "Cos": math.cos, "Rad": math.radians}[o](float(xs[0]))).limit_denominator(10 ** 9)
        else:
            raise NoValue()
    elif k == "op":
        xs = [evalt(x, env, draw) for x in t.a[1:]]
        o = t.a[0]
        if o == "i2f":
            v = xs[0]
        elif o == "Mul":
            v = xs[0] * xs[1]
        elif o in ("Max", "max"):
            v = max(xs)
        elif o in ("Min", "min"):
            v = min(xs)
        elif o == "Rem" and xs[1]:
            v = Fraction(int(xs[0]) % int(xs[1])) if xs[0] >= 0 and xs[1] > 0 else None
        elif o == "Div" and xs[1]:
            v = Fraction(int(xs[0]) // int(xs[1])) if xs[0] >= 0 and xs[1] > 0 else None
        if v is None:
            raise NoValue()
    elif is_atom(t):
        v = draw(t)
    else:
        raise NoValue()
    env[t] = v
    return v


def solve_eqs(conds, env, draw):
    """choose inputs so that the equalities among the conditions hold: one input of each equality follows from the others"""
    for c in conds:
        if c.k == "fcmp" and c.a[0] == "Eq":
            d = fsub(c.a[1], c.a[2])[1]
            for a in sorted(d, key=str):
                if a.k == "in" and a not in env:
                    env[a] = Fraction(0)
                    v0 = fsub_val(c, env, draw)
                    env.clear_derived()
                    env[a] = -v0 / d[a]
                    break


def fsub_val(c, env, draw):
    cst, d = fsub(c.a[1], c.a[2])
    return cst + sum(k * evalt(a, env, draw) for a, k in d.items())


class Env(dict):
    """values of terms; those of the inputs are kept apart from what follows from them"""

    def clear_derived(self):
        for a in [a for a in self if not is_atom(a)]:
            del self[a]


def holds(c, env, draw):
    if c.k == "int":
        return bool(c.a[0])
    if c.k == "and":
        return all(holds(x, env, draw) for x in c.a)
    if c.k == "not":
        return not holds(c.a[0], env, draw)
    if c.k == "fcmp":
        x, y = evalt(c.a[1], env, draw), evalt(c.a[2], env, draw)
        return x < y if c.a[0] == "Lt" else x <= y if c.a[0] == "Le" else x == y
    raise NoValue()


def sampled(path, fn, nonneg=None, n=60, seed=1):
    """fn(value function) -> True/False on sampled inputs that satisfy the float comparisons of the path.
    returns False if fn fails somewhere, True if it held on every sample, None if nothing could be evaluated"""
    rnd = random.Random(seed)
    fc = path.st.mon.get("fcmp") if path is not None else None
    got = 0
    for i in range(n * (40 if fc is not None else 1)):
        env = Env()

        def draw(a):
            lo, hi = -200, 400
            if nonneg is not None and nonneg(a) or a.k in ("len", "strlen"):
                lo = 0
            v = Fraction(rnd.randint(lo, hi))
            if path is not None:
                r = path.st.facts.get(a)
                if r is not None:
                    ok = [(l, h) for l, h in r if not (h < lo or l > hi)]
                    if not ok:
                        raise NoValue()
                    l, h = ok[0]
                    v = Fraction(rnd.randint(max(lo, l), min(hi, h)))
            return v
        try:
            if fc is not None:
                solve_eqs(fc.a, env, draw)
            if fc is not None and not all(holds(c, env, draw) for c in fc.a):
                continue
            r = fn(lambda t: evalt(t, env, draw))
        except NoValue:
            if i > 400 and not got:
                return None
            continue
        got += 1
        if not r:
            return False
        if got >= n:
            break
    return True if got else None


def numsame(path, x, y):
    """two numeric terms: True equal (as forms, or on every sample), False differ on some input, None unknown"""
    if fsame(x, y):
        return True
    return sampled(path, lambda v: abs(v(x) - v(y)) <= Fraction(1, 10 ** 6))
