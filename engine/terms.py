"""Interned symbolic terms: the value domain of the abstract interpreter."""
import sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ("k", "a", "id", "ty", "_atoms")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.ty = None
        t._atoms = None
        _n[0] += 1
        t.id = _n[0]
        _tab[key] = t
    return t


def Int(v):
    return mk("int", int(v))


TRUE = Int(1)
FALSE = Int(0)
UNIT = mk("agg", -1, 0, ())
UNDEF = mk("undef")


def Bool(b):
    return TRUE if b else FALSE


def Flt(v):
    return mk("flt", repr(float(v)))


def Lit(s):
    return mk("str", (mk("lit", s),)) if s else mk("str", ())


def tup(*xs):
    return mk("agg", -1, 0, tuple(xs))


def agg(ty, var, fields):
    return mk("agg", ty, var, tuple(fields))


def ref(cell, path=()):
    return mk("ref", cell, path)


def kref(t):
    return mk("ref", ("K", t), ())


# ---------------------------------------------------------------- linear ints
def lin_parts(t):
    """-> (const, {atom: coef}) for an integer-valued term."""
    if t.k == "int":
        return t.a[0], {}
    if t.k == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return Int(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(x, y, s=1):
    if x.k == "int" and y.k == "int":
        return Int(x.a[0] + s * y.a[0])
    c, d = lin_parts(x)
    c2, d2 = lin_parts(y)
    d = dict(d)
    for a, k in d2.items():
        d[a] = d.get(a, 0) + s * k
    return mk_lin(c + s * c2, d)


def sub(x, y):
    return add(x, y, -1)


def mulc(x, n):
    c, d = lin_parts(x)
    return mk_lin(c * n, {a: k * n for a, k in d.items()})


def addc(x, n):
    return add(x, Int(n))


def lv_split(t):
    """Split a linear term into (const, lv, sign): t = const + sign*lv, lv normalised."""
    c, d = lin_parts(t)
    if not d:
        return c, None, 1
    items = sorted(d.items(), key=lambda x: x[0].id)
    s = 1 if items[0][1] > 0 else -1
    lv = mk_lin(0, {a: k * s for a, k in d.items()})
    return c, lv, s


# ---------------------------------------------------------------- booleans
def cmp_(op, t):
    """op in lt, eq : t < 0, t == 0."""
    if t.k == "int":
        return Bool(t.a[0] < 0 if op == "lt" else t.a[0] == 0)
    if op == "eq":
        c, lv, s = lv_split(t)
        if s < 0:
            t = mulc(t, -1)
    return mk("cmp", op, t)


def not_(x):
    if x.k == "int":
        return Bool(not x.a[0])
    if x.k == "not":
        return x.a[0]
    return mk("not", x)


def and_(x, y):
    if x.k == "int":
        return y if x.a[0] else FALSE
    if y.k == "int":
        return x if y.a[0] else FALSE
    if x is y:
        return x
    return mk("and", x, y)


def or_(x, y):
    return not_(and_(not_(x), not_(y)))


def lt(x, y):
    return cmp_("lt", sub(x, y))


def le(x, y):
    return not_(cmp_("lt", sub(y, x)))


def eq(x, y):
    return cmp_("eq", sub(x, y))


# ---------------------------------------------------------------- strings
def str_parts(t):
    if t.k == "str":
        return t.a[0]
    return (mk("S", t),)


def mk_str(parts):
    out = []
    for p in parts:
        if p.k == "ch" and p.a[0].k == "int":
            p = mk("lit", chr(p.a[0].a[0]))
        if p.k == "lit":
            if p.a[0] == "":
                continue
            if out and out[-1].k == "lit":
                out[-1] = mk("lit", out[-1].a[0] + p.a[0])
                continue
        if p.k == "S" and p.a[0].k == "str":
            q = list(p.a[0].a[0])
            for x in q:
                if x.k == "lit" and out and out[-1].k == "lit":
                    out[-1] = mk("lit", out[-1].a[0] + x.a[0])
                else:
                    out.append(x)
            continue
        out.append(p)
    if len(out) == 1 and out[0].k == "S":
        return out[0].a[0]
    return mk("str", tuple(out))


def str_const(t):
    """The Python string if t is a constant string, else None."""
    if t.k == "str":
        if len(t.a[0]) == 0:
            return ""
        if len(t.a[0]) == 1 and t.a[0][0].k == "lit":
            return t.a[0][0].a[0]
    return None


# ---------------------------------------------------------------- lists
def list_parts(t):
    """-> (base|None, upds, items)"""
    if t.k == "list":
        return t.a
    return (t, (), ())


def mk_list(base, upds, items):
    if base is not None and not upds and not items:
        return base
    return mk("list", base, tuple(upds), tuple(items))


EMPTY = mk("list", None, (), ())


def list_len(t):
    b, u, it = list_parts(t)
    n = Int(len(it))
    if b is None:
        return n
    return add(mk_len(b), n)


def mk_len(b):
    if b.k == "slice":
        return sub(b.a[2], b.a[1])
    if b.k == "rep":       # vec![x; n]
        return b.a[1]
    if b.k in ("rev", "perm"):
        return list_len(b.a[0])
    if b.k == "insd":
        return addc(list_len(b.a[0]), 1)
    if b.k in ("rmd", "swrmd"):
        return addc(list_len(b.a[0]), -1)
    if b.k == "rsz":
        return b.a[1]
    if b.k == "cat":
        return add(list_len(b.a[0]), list_len(b.a[1]))
    if b.k == "list":
        return list_len(b)
    t = mk("len", b)
    return t


# ---------------------------------------------------------------- traversal
def children(t):
    """All sub-terms (including those inside refs' cells/paths)."""
    r = t._atoms
    if r is None:
        out = []
        for x in t.a:
            if isinstance(x, T):
                out.append(x)
            elif isinstance(x, tuple):
                out.extend(_ctuple(x))
        r = t._atoms = tuple(out)
    return r


def _ctuple(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _ctuple(y)


def rebuild(t, f):
    """Rebuild t with f applied to child terms, normalising."""
    k = t.k
    if k in ("int", "flt", "lit", "in", "sym", "undef", "fn", "zst"):
        return t
    if k == "lin":
        c = Int(t.a[0])
        for a, co in t.a[1]:
            c = add(c, mulc(f(a), co))
        return c
    if k == "cmp":
        return cmp_(t.a[0], f(t.a[1]))
    if k == "not":
        return not_(f(t.a[0]))
    if k == "str":
        return mk_str([f(p) for p in t.a[0]])
    if k == "list":
        b = f(t.a[0]) if t.a[0] is not None else None
        upds = tuple((f(i), f(v)) for i, v in t.a[1])
        items = tuple(f(x) for x in t.a[2])
        if b is not None and b.k == "list":
            bb, bu, bi = b.a
            if not bi:
                return mk_list(bb, bu + upds, items)
            if not upds:
                return mk_list(bb, bu, bi + items)
        return mk_list(b, upds, items)
    if k == "len":
        b = f(t.a[0])
        return list_len(b)
    na = tuple(_rt(x, f) for x in t.a)
    if na == t.a:
        return t
    r = mk(k, *na)
    if r.ty is None:
        r.ty = t.ty
    return r


def _rt(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_rt(y, f) for y in x)
    return x


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = m.get(x)
        if r is None:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


LEAF = ("int", "flt", "lit", "undef", "fn", "zst")


def subterms(t, seen):
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 12:
        return ".."
    k, a = t.k, t.a
    if k == "int" or k == "flt":
        return str(a[0])
    if k == "in":
        return str(a[0])
    if k == "sym":
        return "%s#%s" % (a[0], a[1])
    if k == "lin":
        return "+".join([("%s*" % c if c != 1 else "") + show(x, d + 1) for x, c in a[1]] + ([str(a[0])] if a[0] else []))
    if k == "agg":
        return "{%s:%s %s}" % (a[0], a[1], ", ".join(show(x, d + 1) for x in a[2]))
    if k == "fld":
        return "%s.%s%s" % (show(a[0], d + 1), "" if a[1] is None else "v%s." % a[1], a[2])
    if k == "ref":
        return "&%s%s" % (show(a[0], d + 1), show(a[1], d + 1) if a[1] else "")
    if k == "list":
        return "[%s|%s|%s]" % (show(a[0], d + 1) if a[0] is not None else "", ",".join("%s:=%s" % (show(i, d + 1), show(v, d + 1)) for i, v in a[1]), ",".join(show(x, d + 1) for x in a[2]))
    if k == "str":
        return "\"" + "".join(("{%s}" % show(p, d + 1)) if p.k != "lit" else p.a[0] for p in a[0]) + "\""
    return "%s(%s)" % (k, ",".join(show(x, d + 1) for x in a))


UNKNOWN = set()     # names of callees that are not modelled; their results decide nothing
