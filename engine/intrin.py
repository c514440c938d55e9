"""Semantics of the standard-library operations the analysed code uses."""
import functools
import re
from terms import *

# standard-library code that is interpreted from its own MIR
ALLOW = re.compile(
    r"^(?!(?!.* as models::)<(?:std::vec::|std::slice::|core::slice::|std::str::|core::str::|std::string::|std::collections|alloc::|std::array::IntoIter|core::array::IntoIter|hashbrown))(<?std::option|<?std::result|<std::cmp::Reverse|std::iter::|<std::iter::|core::iter|<core::iter|models::|<.* as models::|std::cmp::|core::bool|std::ops::|<.* as std::iter::|"
    r"std::mem::|<std::ops::|core::array|std::array::|std::convert::|<.* as std::convert::|std::bool|core::num::<impl usize>::(saturating|wrapping|checked|abs_diff|is_power))")

_gen = re.compile(r"<[^<>]*>")


def strip_gen(s):
    """drop generic argument lists"""
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def last(p):
    p = p.strip()
    while p.startswith(("&", "'", "*", "mut ", "const ")):
        if p.startswith("&"):
            p = p[1:]
        elif p.startswith("'"):
            p = p.split(" ", 1)[1] if " " in p else ""
        elif p.startswith("mut "):
            return "&mut " + last(p[4:])
        elif p.startswith("const "):
            p = p[6:]
        else:
            p = p[1:]
        p = p.strip()
        if not p.startswith(("&", "'", "*", "mut ", "const ")):
            return "&" + last0(p)
    return last0(p)


def last0(p):
    if p.startswith("["):
        return "[N]" if ";" in p else "[T]"
    if p.startswith("("):
        return "()"
    p = strip_gen(p)
    q = [x for x in p.split("::") if x]
    return q[-1] if q else p


def norm(s):
    """<A as B<C>>::m -> '<A as B>::m'; a::b::<impl T>::m -> 'T::m'; a::b::C::<T>::m -> 'C::m'"""
    m = None
    i = s.find("<impl ")
    body = None
    if i >= 0:
        d = 0
        for j in range(i, len(s)):
            if s[j] == "<":
                d += 1
            elif s[j] == ">" and s[j - 1] != "-":
                d -= 1
                if d == 0:
                    break
        body = s[i + 6:j]
        rest = s[j + 1:]
        if " for " in body:
            tr, ty = body.split(" for ", 1)
            return "<%s as %s>%s" % (last(ty), last0(tr), "::" + strip_gen(rest).lstrip(":") if rest else "")
        return last(body) + "::" + strip_gen(rest).strip(":").replace("::::", "::")
    if s.startswith("<"):
        d = 0
        for j in range(len(s)):
            if s[j] == "<":
                d += 1
            elif s[j] == ">" and s[j - 1] != "-":
                d -= 1
                if d == 0:
                    break
        body = s[1:j]
        rest = s[j + 1:]
        # top-level ' as '
        d = 0
        for q in range(len(body)):
            if body[q] == "<":
                d += 1
            elif body[q] == ">" and body[q - 1] != "-":
                d -= 1
            elif d == 0 and body.startswith(" as ", q):
                ty, tr = body[:q], body[q + 4:]
                return "<%s as %s>::%s" % (last(ty), last0(tr), strip_gen(rest).strip(":"))
        return last(body) + "::" + strip_gen(rest).strip(":")
    p = [x for x in strip_gen(s).split("::") if x]
    return "::".join(p[-2:])


TAB = {}


def h(*names):
    def deco(f):
        for n in names:
            TAB[n] = f
        return f
    return deco


# ------------------------------------------------------------------ helpers
def rty(e, ctx):
    d = ctx[2]
    if d is not None and len(d) > 2 and d[2] is not None:
        return d[2]
    fn = ctx[0]
    if fn is not None and fn.raw is not None:
        e.p.compile(fn)
        return fn.locals[0][0]
    return None


def enum(e, ty, name, *v):
    t = e.p.tys[ty]
    for i, x in enumerate(t["v"]):
        if x["n"] == name:
            return agg(ty, i, v)
    raise KeyError(name)


def some(e, ctx, v):
    return enum(e, rty(e, ctx), "Some", v)


def none(e, ctx):
    return enum(e, rty(e, ctx), "None")


def bfork(e, st, c, ctx, tv, fv):
    """fork on boolean term c; tv/fv: functions st -> value | [(st, value)]"""
    a, b = e.split(st, c)
    out = []

    def ap(s, r):
        if isinstance(r, list):
            out.extend(r)
        else:
            out.append((s, r))
    if a is not None:
        if b is not None:
            e.note(a, ctx[4], (c, 1))
        ap(a, tv(a))
    if b is not None:
        if a is not None:
            e.note(b, ctx[4], (c, 0))
        ap(b, fv(b))
    return out


def ext(r, p):
    """extend a reference by one path element"""
    return r


def sub_ref(e, st, r, el):
    c, p = e.deref(st, r)
    if el[0] == "i" and p and p[-1][0] == "s":
        s = p[-1]
        return mk("ref", c, p[:-1] + (("i", add(s[1], el[1])),))
    if el[0] == "s" and p and p[-1][0] == "s":
        s = p[-1]
        return mk("ref", c, p[:-1] + (("s", add(s[1], el[1]), add(s[1], el[2])),))
    return mk("ref", c, p + (el,))


def pointee(e, ty):
    while ty is not None and e.p.tys[ty]["k"] in ("ref", "ptr"):
        ty = e.p.tys[ty]["e"]
    return ty


def L(e, st, r):
    return e.loadref(st, r)


def LL(e, st, v, n=4):
    """strip references"""
    while v.k == "ref" and n:
        v = e.loadref(st, v)
        n -= 1
    return v


def elem_ty(e, ty):
    """element type id of a Vec/slice/array type behind refs"""
    ty = pointee(e, ty)
    if ty is None:
        return None
    t = e.p.tys[ty]
    if "e" in t:
        return t["e"]
    if t["k"] == "adt" and t.get("a"):
        return t["a"][0]
    return None


# ------------------------------------------------------------------ containers
@h("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity", "<Vec as Default>::default", "<VecDeque as Default>::default")
def vec_new(e, st, a, ty, ctx):
    return EMPTY


@h("HashMap::new", "HashSet::new", "BTreeMap::new", "BTreeSet::new", "<HashMap as Default>::default", "<HashSet as Default>::default",
   "<BTreeMap as Default>::default", "<BTreeSet as Default>::default", "HashMap::with_capacity", "HashSet::with_capacity")
def map_new(e, st, a, ty, ctx):
    return mk("map", None, ())


@h("String::new", "String::with_capacity", "<String as Default>::default")
def string_new(e, st, a, ty, ctx):
    return Lit("")


@h("<usize as Default>::default", "<i32 as Default>::default", "<u32 as Default>::default", "<u64 as Default>::default", "<i64 as Default>::default", "<bool as Default>::default")
def zero(e, st, a, ty, ctx):
    return Int(0)


@h("<f64 as Default>::default")
def zerof(e, st, a, ty, ctx):
    return Flt(0.0)


@h("Vec::push", "VecDeque::push_back", "Vec::push_mut")
def vec_push(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    e.storeref(st, a[0], e.list_push(l, a[1]), ctx[4])
    return UNIT


@h("Vec::pop", "VecDeque::pop_back")
def vec_pop(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    b, u, it = list_parts(l)
    if it:
        e.storeref(st, a[0], mk_list(b, u, it[:-1]), ctx[4])
        return some(e, ctx, it[-1])
    if b is None:
        return none(e, ctx)
    n = list_len(l)

    def go(s):
        i = addc(n, -1)
        x = e.list_get(s, l, i)
        e.storeref(s, a[0], mk_slice(l, Int(0), i), ctx[4])
        return some(e, ctx, x)
    return bfork(e, st, lt(Int(0), n), ctx, go, lambda s: none(e, ctx))


@h("VecDeque::pop_front")
def vec_pop_front(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    b, u, it = list_parts(l)
    if b is None:
        if not it:
            return none(e, ctx)
        e.storeref(st, a[0], mk_list(None, (), it[1:]), ctx[4])
        return some(e, ctx, it[0])
    n = list_len(l)

    def go(s):
        x = e.list_get(s, l, Int(0))
        e.storeref(s, a[0], mk_slice(l, Int(1), n), ctx[4])
        return some(e, ctx, x)
    return bfork(e, st, lt(Int(0), n), ctx, go, lambda s: none(e, ctx))


def mk_slice(l, a, b):
    if l.k == "slice":
        return mk_slice(l.a[0], add(l.a[1], a), add(l.a[1], b))
    if a.k == "int" and a.a[0] == 0 and b is list_len(l):
        return l
    bb, u, it = list_parts(l)
    if bb is None and a.k == "int" and b.k == "int":
        return mk("list", None, (), it[a.a[0]:b.a[0]])
    if bb is not None and it and a.k == "int" and a.a[0] == 0 and b is mk_len(bb):
        return mk_list(bb, u, ())
    return mk("slice", l, a, b)


@h("Vec::len", "[T]::len", "HashMap::len", "HashSet::len", "VecDeque::len", "BTreeMap::len", "BTreeSet::len", "<Iter as ExactSizeIterator>::len")
def c_len(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    return clen(e, l, st)


def clen(e, l, st=None):
    if l.k == "iter":
        return sub(l.a[3], l.a[2])
    if l.k == "map":
        return map_len(e, st, l)
    if l.k == "mget" or l.ty is not None and e.p.tys[l.ty]["k"] == "adt" and "Map" in e.p.tys[l.ty]["n"]:
        return map_len(e, st, l)
    return list_len(l)


def map_len(e, st, m):
    b, u = e.map_parts(m)
    if b is None:
        if all(v is not None for _, v in u):
            ks = [k for k, _ in u]
            ok = True
            for i in range(len(ks)):
                for j in range(i):
                    if e.eqterm(ks[i], ks[j]) is not FALSE and (st is None or e.decide(st, e.eqterm(ks[i], ks[j])) is not False):
                        ok = False
            if ok:
                return Int(len(ks))
    t = mk("maplen", m)
    t.ty = e.usize()
    return t


@h("Vec::is_empty", "[T]::is_empty", "HashMap::is_empty", "HashSet::is_empty", "VecDeque::is_empty", "BTreeMap::is_empty", "BTreeSet::is_empty")
def c_is_empty(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    n = clen(e, l, st)
    if n.k == "int":
        return Bool(n.a[0] == 0)
    return not_(lt(Int(0), n))


@h("Vec::clear", "VecDeque::clear")
def vec_clear(e, st, a, ty, ctx):
    e.storeref(st, a[0], EMPTY, ctx[4])
    return UNIT


@h("HashMap::clear", "HashSet::clear", "BTreeMap::clear")
def map_clear(e, st, a, ty, ctx):
    e.storeref(st, a[0], mk("map", None, ()), ctx[4])
    return UNIT


@h("String::clear")
def str_clear(e, st, a, ty, ctx):
    e.storeref(st, a[0], Lit(""), ctx[4])
    return UNIT


@h("Vec::insert", "VecDeque::insert")
def vec_insert(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    b, u, it = list_parts(l)
    i = a[1]
    if e.bound(st, le(i, list_len(l)), "insert", ctx[4], l, i) is False:
        return None
    if b is None and i.k == "int":
        it = it[:i.a[0]] + (a[2],) + it[i.a[0]:]
        e.storeref(st, a[0], mk("list", None, (), it), ctx[4])
        return UNIT
    if i is list_len(l):
        e.storeref(st, a[0], e.list_push(l, a[2]), ctx[4])
        return UNIT
    e.storeref(st, a[0], mk("insd", l, i, a[2]), ctx[4])
    return UNIT


@h("Vec::remove")
def vec_remove(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    b, u, it = list_parts(l)
    i = a[1]
    if e.bound(st, lt(i, list_len(l)), "remove", ctx[4], l, i) is False:
        return None
    x = e.list_get(st, l, i)
    if b is None and i.k == "int":
        e.storeref(st, a[0], mk("list", None, (), it[:i.a[0]] + it[i.a[0] + 1:]), ctx[4])
        return x
    e.storeref(st, a[0], mk("rmd", l, i), ctx[4])
    return x


@h("VecDeque::remove")
def vd_remove(e, st, a, ty, ctx):
    b, u, it = list_parts(L(e, st, a[0]))
    if b is not None or a[1].k != "int":
        return NotImplemented
    i = a[1].a[0]
    if i >= len(it):
        return none(e, ctx)
    e.storeref(st, a[0], mk("list", None, (), it[:i] + it[i + 1:]), ctx[4])
    return some(e, ctx, it[i])


@h("Vec::swap_remove")
def vec_swap_remove(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    if e.bound(st, lt(a[1], list_len(l)), "swap_remove", ctx[4], l, a[1]) is False:
        return None
    x = e.list_get(st, l, a[1])
    b, u, it = list_parts(l)
    if b is None and a[1].k == "int":
        i = a[1].a[0]
        it = it[:i] + (it[-1:] + it[i + 1:-1] if i < len(it) - 1 else ())
        e.storeref(st, a[0], mk("list", None, (), it), ctx[4])
        return x
    e.storeref(st, a[0], mk("swrmd", l, a[1]), ctx[4])
    return x


@h("Vec::truncate")
def vec_trunc(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    n = list_len(l)
    d = e.decide(st, le(n, a[1]))
    if d is True:
        return UNIT
    e.storeref(st, a[0], mk_slice(l, Int(0), a[1]) if d is False else e.fresh(st, "trunc"), ctx[4])
    return UNIT


@h("Vec::resize")
def vec_resize(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    if l is EMPTY:
        e.storeref(st, a[0], mk_list(mk("rep", a[2], a[1]), (), ()), ctx[4])
    elif l.k == "list" and list_parts(l)[0] is None and a[1].k == "int" and a[1].a[0] <= 64:
        it, n = list_parts(l)[2], a[1].a[0]
        e.storeref(st, a[0], mk("list", None, (), (it + (a[2],) * (n - len(it)))[:n]), ctx[4])
    else:
        e.storeref(st, a[0], mk("rsz", l, a[1], a[2]), ctx[4])
    return UNIT


@h("vec::from_elem")
def from_elem(e, st, a, ty, ctx):
    if a[1].k == "int" and a[1].a[0] <= 64:
        return mk("list", None, (), (a[0],) * a[1].a[0])
    return mk_list(mk("rep", a[0], a[1]), (), ())


@h("Vec::extend_from_slice", "Vec::append", "models::extend_from_slice")
def vec_extend(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    o = LL(e, st, a[1])
    b, u, it = list_parts(o)
    app = "append" in (ctx[1] or "")
    if b is None and not u:
        for x in it:
            l = e.list_push(l, x)
        e.storeref(st, a[0], l, ctx[4])
    elif l is EMPTY:
        e.storeref(st, a[0], o, ctx[4])
    else:
        e.storeref(st, a[0], mk("cat", l, o), ctx[4])
    if app:
        e.storeref(st, a[1], EMPTY, ctx[4])
    return UNIT


@h("Vec::reserve", "Vec::shrink_to_fit", "String::reserve")
def nop(e, st, a, ty, ctx):
    return UNIT


@h("[T]::reverse")
def reverse(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    b, u, it = list_parts(l)
    if b is None:
        e.storeref(st, a[0], mk("list", None, (), it[::-1]), ctx[4])
    else:
        e.storeref(st, a[0], l.a[0] if l.k == "rev" else mk_list(mk("rev", l), (), ()), ctx[4])
    return UNIT


def ckey(x):
    """derived order of a concrete value"""
    if x.k == "int":
        return (0, x.a[0])
    if x.k == "agg":
        ks = [ckey(y) for y in x.a[2]]
        return None if None in ks else (1, x.a[1], tuple(ks))
    if x.k == "list":
        it = known_items(x)
        ks = [None] if it is None else [ckey(y) for y in it]
        return None if None in ks else (3, tuple(ks))
    c = str_const(x)
    return None if c is None else (2, c.encode())


@h("[T]::rotate_left", "[T]::rotate_right", "[T]::sort", "[T]::sort_by", "[T]::sort_by_key", "[T]::sort_unstable", "[T]::sort_unstable_by",
   "[T]::sort_unstable_by_key", "<[T] as Sort>::sort")
def permute(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    it = known_items(l)
    nm = ctx[1] or ctx[0].t
    if it is not None and "_key" in nm:
        return NotImplemented
    if it is not None and "rotate_" in nm and a[1].k == "int":
        k = a[1].a[0]
        if k > len(it):
            e.panic(st, "rotate beyond the end of the slice", ctx[4])
            return None
        if "right" in nm:
            k = len(it) - k
        e.storeref(st, a[0], mk_list(None, (), tuple(it[k:] + it[:k])), ctx[4])
        return UNIT
    if it is not None and len(a) == 1:
        ks = [ckey(x) for x in it]
        if None not in ks:
            e.storeref(st, a[0], mk_list(None, (), tuple(x for k, x in sorted(zip(ks, it), key=lambda q: q[0]))), ctx[4])
            return UNIT
    if it is not None and len(a) == 2 and "sort" in nm and "by_key" not in nm:
        # stable sort of a known list: ask the comparator about every pair
        n = len(it)
        pairs = [(x, y) for x in range(n) for y in range(x + 1, n)]

        def fold(s, i, acc, v):
            o = None
            if v.k == "agg" and isinstance(e.p.tys[v.a[0]], dict):
                o = {"Less": -1, "Equal": 0, "Greater": 1}.get(e.p.tys[v.a[0]]["v"][v.a[1]]["n"]) if e.p.tys[v.a[0]].get("v") else None
            return [(s, acc + (o,))]

        def fin(s, acc):
            if None in acc:
                e.storeref(s, a[0], mk_list(mk("perm", l, e.fresh(s, "pi")), (), ()), ctx[4])
                return UNIT
            d = dict(zip(pairs, acc))
            key = functools.cmp_to_key(lambda x, y: 0 if x == y else d[(x, y)] if x < y else -d[(y, x)])
            e.storeref(s, a[0], mk_list(None, (), tuple(it[k] for k in sorted(range(n), key=key))), ctx[4])
            return UNIT
        return closure_loop(e, st, len(pairs), lambda s, i, acc: [kref(it[pairs[i][0]]), kref(it[pairs[i][1]])], fold, fin, (), ctx, a[1], ty[1])
    e.storeref(st, a[0], mk_list(mk("perm", l, e.fresh(st, "pi")), (), ()), ctx[4])
    return UNIT


def closure_loop(e, st, n, args, fold, fin, acc, ctx, clo, cty):
    """call a closure for 0..n; fold(state, i, acc, result) -> [(state, acc)]; fin(state, acc) -> value"""
    import core

    def go(s, i, acc, fr):
        if i == n:
            v = fin(s, acc)
            return v if fr is None else e.resume(s, fr, v)
        k = len(s.frames)
        ct = pointee(e, cty)
        if ct is not None and e.p.tys[ct]["k"] == "fndef":
            hd = TAB.get(norm(e.p.tys[ct]["t"]))
            if hd is not None and norm(e.p.tys[ct]["t"]).startswith("char::"):
                r = hd(e, s, args(s, i, acc), [None], (None, e.p.tys[ct]["t"], None, None, ctx[4]))
                res = []
                for s2, v in (r if isinstance(r, list) else [(s, r)]):
                    for s3, a3 in fold(s2, i, acc, v):
                        q = go(s3, i + 1, a3, fr)
                        if fr is None:
                            res += q if isinstance(q, list) else [(s3, q)]
                        elif q is None or q is core.PUSHED:
                            res.append(s3)
                        else:
                            res += q
                return res
        r = e.call_closure(s, [clo, tup(*args(s, i, acc))], [cty, None], ctx[2], ctx[3], ctx[4])
        if len(s.frames) != k + 1:
            s.mon["opaque"] = mk("op1", mk("app", "closure"))
            v = e.fresh(s, "clo")
            return v if fr is None else e.resume(s, fr, v)

        def cont(eng, s2, fr2, v):
            outs = fold(s2, i, acc, v)
            res = []
            for s3, a3 in outs:
                q = go(s3, i + 1, a3, fr2)
                if q is None or q is core.PUSHED:
                    res.append(s3)
                else:
                    res += q
            return None if len(res) == 1 and res[0] is s2 else res
        s.frames[-1].cont = (cont,)
        return core.PUSHED
    return go(st, 0, acc, None)


def known_items(l):
    b, u, it = list_parts(l)
    return list(it) if b is None and not u else None


@h("Vec::retain", "Vec::retain_mut")
def vec_retain(e, st, a, ty, ctx):
    it = known_items(L(e, st, a[0]))
    if it is None:
        return NotImplemented
    if "mut" in (ctx[1] or ctx[0].t):
        return NotImplemented

    def fold(s, i, acc, v):
        x, y = e.split(s, v)
        return ([(x, acc + (it[i],))] if x is not None else []) + ([(y, acc)] if y is not None else [])

    def fin(s, acc):
        e.storeref(s, a[0], mk_list(None, (), acc), ctx[4])
        return UNIT
    return closure_loop(e, st, len(it), lambda s, i, acc: [kref(it[i])], fold, fin, (), ctx, a[1], ty[1])


@h("Vec::dedup")
def vec_dedup(e, st, a, ty, ctx):
    it = known_items(L(e, st, a[0]))
    if it is None:
        return NotImplemented
    sts = [(st, tuple(it[:1]))]
    for x in it[1:]:
        nx = []
        for s, acc in sts:
            p, q = e.split(s, e.eqterm(acc[-1], x))
            if p is not None:
                nx.append((p, acc))
            if q is not None:
                nx.append((q, acc + (x,)))
        sts = nx
    for s, acc in sts:
        e.storeref(s, a[0], mk_list(None, (), acc), ctx[4])
    return [(s, UNIT) for s, acc in sts]


@h("Vec::split_off")
def vec_split_off(e, st, a, ty, ctx):
    it = known_items(L(e, st, a[0]))
    if it is None or a[1].k != "int" or a[1].a[0] > len(it):
        return NotImplemented
    e.storeref(st, a[0], mk_list(None, (), tuple(it[:a[1].a[0]])), ctx[4])
    return mk_list(None, (), tuple(it[a[1].a[0]:]))


@h("[T]::contains")
def slice_contains(e, st, a, ty, ctx):
    it = known_items(LL(e, st, a[0]))
    if it is None:
        return NotImplemented
    x = LL(e, st, a[1])
    return fork_first(e, st, [e.eqterm(y, x) for y in it], lambda q, i: TRUE, lambda q: FALSE)


@h("VecDeque::push_front")
def push_front(e, st, a, ty, ctx):
    it = known_items(L(e, st, a[0]))
    if it is None:
        return NotImplemented
    e.storeref(st, a[0], mk_list(None, (), (a[1],) + tuple(it)), ctx[4])
    return UNIT


@h("[T]::swap")
def swap_ij(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    n = list_len(l)
    for i in (a[1], a[2]):
        if e.bound(st, lt(i, n), "swap", ctx[4], l, i) is False:
            return None
    x, y = e.list_get(st, l, a[1]), e.list_get(st, l, a[2])
    l = e.list_set(st, l, a[1], y)
    l = e.list_set(st, l, a[2], x)
    e.storeref(st, a[0], l, ctx[4])
    return UNIT


@h("[T]::to_vec", "<[T] as ToOwned>::to_owned", "Vec::into_boxed_slice", "[T]::into_vec", "Vec::as_slice", "Vec::as_mut_slice")
def to_vec(e, st, a, ty, ctx):
    if "as_" in (ctx[1] or "") or "into" in (ctx[1] or ""):
        return a[0]
    return L(e, st, a[0])


@h("<Vec as Deref>::deref", "<Vec as DerefMut>::deref_mut", "<String as Deref>::deref", "<String as DerefMut>::deref_mut", "String::as_str", "String::as_mut_str",
   "<String as AsRef>::as_ref", "<str as AsRef>::as_ref", "<Vec as AsRef>::as_ref", "<String as Borrow>::borrow", "<T as Borrow>::borrow", "<T as BorrowMut>::borrow_mut",
   "<[N] as AsRef>::as_ref", "[N]::as_slice", "String::into_boxed_str", "hint::must_use", "hint::black_box", "<Vec as Borrow>::borrow", "str::as_bytes_",
   "<&T as AsRef>::as_ref", "<[T] as AsRef>::as_ref", "str::as_str")
def ident(e, st, a, ty, ctx):
    return a[0]


@h("<Box as Deref>::deref", "<Box as DerefMut>::deref_mut", "<Box as AsRef>::as_ref", "<Box as AsMut>::as_mut", "<Box as Borrow>::borrow")
def box_deref(e, st, a, ty, ctx):
    return L(e, st, a[0])


@h("Box::new", "Box::new_uninit_")
def box_new(e, st, a, ty, ctx):
    return e.heap(st, a[0])


@h("Box::new_uninit", "boxed::box_new_uninit")
def box_uninit(e, st, a, ty, ctx):
    return e.heap(st, UNDEF)


@h("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec")
def box_into_vec(e, st, a, ty, ctx):
    return L(e, st, a[0])


@h("mem::swap")
def mem_swap(e, st, a, ty, ctx):
    x, y = L(e, st, a[0]), L(e, st, a[1])
    e.storeref(st, a[0], y, ctx[4])
    e.storeref(st, a[1], x, ctx[4])
    return UNIT


@h("mem::replace")
def mem_replace(e, st, a, ty, ctx):
    x = L(e, st, a[0])
    e.storeref(st, a[0], a[1], ctx[4])
    return x


@h("mem::take")
def mem_take(e, st, a, ty, ctx):
    t = e.p.tys[pointee(e, ty[0])] if ty[0] is not None else {"k": "?"}
    d = default_of(e, pointee(e, ty[0]))
    if d is None:
        return NotImplemented
    x = L(e, st, a[0])
    e.storeref(st, a[0], d, ctx[4])
    return x


@h("mem::drop", "mem::forget", "ptr::drop_in_place", "ptr::drop_glue")
def mem_drop(e, st, a, ty, ctx):
    return UNIT


def default_of(e, ty):
    if ty is None:
        return None
    t = e.p.tys[ty]
    if t["k"] in ("int", "uint", "bool", "char"):
        return Int(0)
    if t["k"] == "float":
        return Flt(0.0)
    if t["k"] == "tuple":
        fs = [default_of(e, f) for f in t["f"]]
        return None if any(f is None for f in fs) else tup(*fs)
    if t["k"] == "adt":
        n = t["n"]
        if n.endswith(("::Vec", "VecDeque")):
            return EMPTY
        if n.endswith("::String"):
            return Lit("")
        if n.endswith(("HashMap", "HashSet", "BTreeMap", "BTreeSet")):
            return mk("map", None, ())
        if n.endswith("::Option"):
            return enum(e, ty, "None")
    if t["k"] == "ref" and e.p.tys[t["e"]]["k"] == "str":
        return kref(Lit(""))
    return None


# ------------------------------------------------------------------ indexing
def do_index(e, st, a, ty, ctx):
    ity = e.p.tys[ty[1]] if ty[1] is not None else {"k": "uint"}
    r, i = a
    base = L(e, st, r)
    pt = pointee(e, ty[0])
    isstr = pt is not None and (e.p.tys[pt]["k"] == "str" or str(e.p.tys[pt].get("n", "")).endswith("::String"))
    if pt is not None and str(e.p.tys[pt].get("n", "")).endswith(("HashMap", "BTreeMap")):
        k = LL(e, st, i)
        return mk("ref", *_mv(e, st, r, k))
    if ity["k"] == "adt" and ity["n"].split("::")[-1].startswith("Range"):
        nm = ity["n"].split("::")[-1]
        ln = e.strlen(base) if isstr else list_len(base)
        f = lambda k: e.fieldof(st, i, None, k)
        lo, hi = Int(0), ln
        if nm == "Range":
            lo, hi = f(0), f(1)
        elif nm == "RangeFrom":
            lo = f(0)
        elif nm == "RangeTo":
            hi = f(0)
        elif nm == "RangeInclusive":
            lo, hi = f(0), addc(f(1), 1)
        elif nm == "RangeToInclusive":
            hi = addc(f(0), 1)
        for c in ((le(lo, hi), le(hi, ln))):
            if e.bound(st, c, "slice", ctx[4], base, lo) is False:
                return None
        if isstr:
            return kref(substr(e, st, base, lo, hi))
        if lo.k == "int" and lo.a[0] == 0 and hi is ln:
            return r
        return sub_ref(e, st, r, ("s", lo, hi))
    if e.bound(st, lt(i, list_len(base)), "index", ctx[4], base, i) is False:
        return None
    x = sub_ref(e, st, r, ("i", i))
    if e.on_access:
        return [(q, x) for q in e.access(st, base, i, ctx[4])]
    return x


def acc(e, s, base, r, i, ctx):
    x = some(e, ctx, sub_ref(e, s, r, ("i", i)))
    if e.on_access:
        return [(q, x) for q in e.access(s, base, i, ctx[4])]
    return x


def _mv(e, st, r, k):
    c, p = e.deref(st, r)
    return c, p + (("mv", k),)


for _n in ("Vec", "[T]", "[N]", "str", "String", "HashMap", "BTreeMap", "VecDeque"):
    TAB["<%s as Index>::index" % _n] = do_index
    TAB["<%s as IndexMut>::index_mut" % _n] = do_index


@h("[T]::get", "[T]::get_mut", "Vec::get", "VecDeque::get", "VecDeque::get_mut")
def sl_get(e, st, a, ty, ctx):
    ity = e.p.tys[ty[1]] if ty[1] is not None else {"k": "uint"}
    if ity["k"] != "uint":
        return NotImplemented
    base = L(e, st, a[0])
    return bfork(e, st, lt(a[1], list_len(base)), ctx, lambda s: acc(e, s, base, a[0], a[1], ctx), lambda s: none(e, ctx))


@h("[T]::get_unchecked", "[T]::get_unchecked_mut")
def sl_getu(e, st, a, ty, ctx):
    return sub_ref(e, st, a[0], ("i", a[1]))


@h("[T]::first", "[T]::first_mut", "VecDeque::front", "VecDeque::front_mut")
def sl_first(e, st, a, ty, ctx):
    base = L(e, st, a[0])
    return bfork(e, st, lt(Int(0), list_len(base)), ctx, lambda s: acc(e, s, base, a[0], Int(0), ctx), lambda s: none(e, ctx))


@h("[T]::last", "[T]::last_mut", "VecDeque::back", "VecDeque::back_mut")
def sl_last(e, st, a, ty, ctx):
    base = L(e, st, a[0])
    n = list_len(base)
    return bfork(e, st, lt(Int(0), n), ctx, lambda s: acc(e, s, base, a[0], addc(n, -1), ctx), lambda s: none(e, ctx))


# ------------------------------------------------------------------ iterators
def mkiter(kind, src, lo, hi):
    return mk("iter", kind, src, lo, hi)


@h("[T]::iter", "[T]::iter_mut", "<&Vec as IntoIterator>::into_iter", "<&[T] as IntoIterator>::into_iter", "<&mut Vec as IntoIterator>::into_iter",
   "<&mut [T] as IntoIterator>::into_iter", "<&[N] as IntoIterator>::into_iter", "<&mut [N] as IntoIterator>::into_iter", "VecDeque::iter", "VecDeque::iter_mut",
   "<&VecDeque as IntoIterator>::into_iter", "<&mut VecDeque as IntoIterator>::into_iter")
def sl_iter(e, st, a, ty, ctx):
    return mkiter("ref", a[0], Int(0), list_len(L(e, st, a[0])))


@h("<Vec as IntoIterator>::into_iter", "<[N] as IntoIterator>::into_iter", "<VecDeque as IntoIterator>::into_iter")
def v_into(e, st, a, ty, ctx):
    return mkiter("val", a[0], Int(0), list_len(a[0]))


@h("Vec::drain")
def v_drain(e, st, a, ty, ctx):
    ity = e.p.tys[ty[1]]
    if not str(ity.get("n", "")).endswith("RangeFull"):
        return NotImplemented
    l = L(e, st, a[0])
    e.storeref(st, a[0], EMPTY, ctx[4])
    return mkiter("val", l, Int(0), list_len(l))


MAP_HITS = {}


def map_order(e, st, kind, src, m, ctx, ty=()):
    """an iterator over a map; a hash map of known size is walked in two opposite orders when asked to"""
    n = map_len(e, st, m)
    it = mkiter(kind, src, Int(0), n)
    hashed = any("Hash" in x for x in (ctx[1], getattr(ctx[0], "n", None), getattr(ctx[0], "t", None)) if isinstance(x, str)) or any(
        isinstance(x, int) and "Hash" in str(e.p.tys[x].get("n", "")) for x in ty[:1])
    if hashed and st.frames:
        k = st.frames[-1].fn.n
        MAP_HITS[k] = MAP_HITS.get(k, 0) | (2 if n.k == "int" and n.a[0] > 1 and e.map_orders else 1)
    if not e.map_orders or n.k != "int" or n.a[0] < 2 or not hashed:
        return it
    s2 = st.copy()
    e.forked(st)
    e.forked(s2)
    return [(st, it), (s2, mkiter(kind + "~", src, Int(0), n))]


@h("HashMap::iter", "HashMap::iter_mut", "<&HashMap as IntoIterator>::into_iter", "<&mut HashMap as IntoIterator>::into_iter",
   "BTreeMap::iter", "BTreeMap::iter_mut", "<&BTreeMap as IntoIterator>::into_iter", "<&mut BTreeMap as IntoIterator>::into_iter")
def m_iter(e, st, a, ty, ctx):
    return map_order(e, st, "map", a[0], L(e, st, a[0]), ctx, ty)


@h("<HashMap as IntoIterator>::into_iter", "<BTreeMap as IntoIterator>::into_iter", "HashMap::drain")
def m_into(e, st, a, ty, ctx):
    if "drain" in (ctx[1] or ""):
        m = L(e, st, a[0])
        e.storeref(st, a[0], mk("map", None, ()), ctx[4])
        return map_order(e, st, "mapval", m, m, ctx, ty)
    return map_order(e, st, "mapval", a[0], a[0], ctx, ty)


@h("HashMap::keys", "BTreeMap::keys", "HashSet::iter", "BTreeSet::iter", "<&HashSet as IntoIterator>::into_iter", "<&BTreeSet as IntoIterator>::into_iter")
def m_keys(e, st, a, ty, ctx):
    return map_order(e, st, "keys", a[0], L(e, st, a[0]), ctx, ty)


@h("HashMap::values", "HashMap::values_mut", "BTreeMap::values", "BTreeMap::values_mut")
def m_values(e, st, a, ty, ctx):
    return map_order(e, st, "values", a[0], L(e, st, a[0]), ctx, ty)


@h("<HashSet as IntoIterator>::into_iter", "<BTreeSet as IntoIterator>::into_iter", "HashMap::into_keys")
def s_into(e, st, a, ty, ctx):
    return map_order(e, st, "keyval", a[0], a[0], ctx, ty)


def nth_key(e, st, m, i):
    b, u = e.map_parts(m)
    if b is None and i.k == "int" and map_len(e, st, m).k == "int":
        return u[i.a[0]][0]
    return mk("mkey", m, i)


def item(e, st, it, i):
    kind, src = it.a[0], it.a[1]
    if kind.endswith("~"):
        kind = kind[:-1]
        i = addc(map_len(e, st, L(e, st, src) if kind in ("map", "keys", "values") else src), -1 - i.a[0]) if i.k == "int" else i
    if kind == "ref":
        return sub_ref(e, st, src, ("i", i))
    if kind == "val":
        return e.list_get(st, src, i)
    if kind == "cidx":
        x = e.list_get(st, src, i)
        b, u, its = list_parts(src)
        if b is None and i.k == "int":
            pos = Int(0)
            for c in its[:i.a[0]]:
                pos = add(pos, utf8len(e, st, c))
        else:
            pos = mk("app", "bytepos", src, i)
            pos.ty = e.usize()
        return tup(pos, x)
    if kind == "lines":
        return kref(mk("app", "line", src, i))
    if kind in ("map", "keys", "values"):
        m = L(e, st, src)
        k = nth_key(e, st, m, i)
        if kind == "keys":
            return kref(k)
        v = mk("ref", *_mv(e, st, src, k))
        return v if kind == "values" else tup(kref(k), v)
    if kind in ("mapval", "keyval"):
        k = nth_key(e, st, src, i)
        return k if kind == "keyval" else tup(k, e.map_get_known(st, src, k))
    raise Exception(kind)


def it_next(e, st, a, ty, ctx, back=False):
    it = L(e, st, a[0])
    if it.k != "iter":
        return NotImplemented
    lo, hi = it.a[2], it.a[3]

    def go(s):
        if back:
            i = addc(hi, -1)
            n = mkiter(it.a[0], it.a[1], lo, i)
        else:
            i = lo
            n = mkiter(it.a[0], it.a[1], addc(lo, 1), hi)
        x = item(e, s, it, i)
        e.storeref(s, a[0], n, ctx[4])
        for hk in e.on_next:
            hk(e, s, it, i, x, ctx[4])
        r = some(e, ctx, x)
        if e.on_access:
            base = L(e, s, it.a[1]) if it.a[0] == "ref" else it.a[1]
            return [(q, r) for q in e.access(s, base, i, ctx[4])]
        return r
    return bfork(e, st, lt(lo, hi), ctx, go, lambda s: none(e, ctx))


def it_next_back(e, st, a, ty, ctx):
    return it_next(e, st, a, ty, ctx, True)


for _n in ("Iter", "IterMut", "IntoIter", "Chars", "CharIndices", "Lines", "Split", "Drain", "Keys", "Values", "ValuesMut", "Bytes", "Matches", "SplitN", "RSplitN", "RSplit", "SplitTerminator", "SplitInclusive", "SplitWhitespace"):
    TAB["<%s as Iterator>::next" % _n] = it_next
    TAB["<%s as DoubleEndedIterator>::next_back" % _n] = it_next_back


@h("<Iter as Clone>::clone", "<Chars as Clone>::clone")
def it_clone(e, st, a, ty, ctx):
    return L(e, st, a[0])


@h("Iter::as_slice", "Chars::as_str")
def it_rest(e, st, a, ty, ctx):
    return NotImplemented


@h("<Range as Iterator>::next")
def range_next(e, st, a, ty, ctx):
    r = L(e, st, a[0])
    if r.k != "agg":
        return NotImplemented
    lo, hi = r.a[2]
    if lo.ty is None and lo.k in ("sym", "fld", "in", "elem", "app"):
        lo.ty = e.p.tys[rty(e, ctx)]["a"][0]

    def go(s):
        e.storeref(s, a[0], agg(r.a[0], r.a[1], (addc(lo, 1), hi)), ctx[4])
        for hk in e.on_next:
            hk(e, s, r, lo, lo, ctx[4])
        return some(e, ctx, lo)
    return bfork(e, st, lt(lo, hi), ctx, go, lambda s: none(e, ctx))


@h("<Range as DoubleEndedIterator>::next_back")
def range_next_back(e, st, a, ty, ctx):
    r = L(e, st, a[0])
    if r.k != "agg":
        return NotImplemented
    lo, hi = r.a[2]

    def go(s):
        i = addc(hi, -1)
        e.storeref(s, a[0], agg(r.a[0], r.a[1], (lo, i)), ctx[4])
        for hk in e.on_next:
            hk(e, s, r, i, i, ctx[4])
        return some(e, ctx, i)
    return bfork(e, st, lt(lo, hi), ctx, go, lambda s: none(e, ctx))


@h("RangeInclusive::new")
def rinc_new(e, st, a, ty, ctx):
    return agg(rty(e, ctx), 0, (a[0], a[1], FALSE))


@h("<RangeInclusive as Iterator>::next", "<RangeInclusive as DoubleEndedIterator>::next_back")
def rinc_next(e, st, a, ty, ctx):
    r = L(e, st, a[0])
    if r.k != "agg":
        return NotImplemented
    back = "next_back" in ctx[1]
    lo, hi, ex = r.a[2]
    live = and_(not_(ex), le(lo, hi))

    def go(s):
        d = e.decide(s, lt(lo, hi))
        i = hi if back else lo
        if d is None:
            # not known whether this is the last element: keep it as start=i+1 (may pass the end)
            n = (lo, addc(hi, -1), FALSE) if back else (addc(lo, 1), hi, FALSE)
        elif d:
            n = (lo, addc(hi, -1), FALSE) if back else (addc(lo, 1), hi, FALSE)
        else:
            n = (lo, hi, TRUE)
        e.storeref(s, a[0], agg(r.a[0], r.a[1], n), ctx[4])
        for hk in e.on_next:
            hk(e, s, r, i, i, ctx[4])
        return some(e, ctx, i)
    return bfork(e, st, live, ctx, go, lambda s: none(e, ctx))


@h("<I as IntoIterator>::into_iter", "Iterator::by_ref", "<T as From>::from", "<T as Into>::into_", "Iterator::peekable_", "Iterator::copied_val", "Iterator::fuse_")
def identity(e, st, a, ty, ctx):
    return a[0]


# ------------------------------------------------------------------ maps
def map_has(e, st, m, k):
    b, u = e.map_parts(m)
    conds = TRUE
    for x, y in reversed(u):
        c = e.eqterm(x, k)
        d = e.decide(st, c)
        if d is True:
            return Bool(y is not None) if conds is TRUE else None
        if d is False:
            continue
        return c if y is not None and conds is TRUE and _last(u, x) and b is None else mk("mhas", m, k)
    if b is None:
        return FALSE
    return mk("mhas", b, k)


def _last(u, x):
    return u[0][0] is x


@h("HashMap::get", "HashMap::get_mut", "BTreeMap::get", "BTreeMap::get_mut")
def map_get(e, st, a, ty, ctx):
    m = L(e, st, a[0])
    k = LL(e, st, a[1])
    return bfork(e, st, map_has(e, st, m, k), ctx, lambda s: some(e, ctx, mk("ref", *_mv(e, s, a[0], k))), lambda s: none(e, ctx))


@h("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def map_contains(e, st, a, ty, ctx):
    return map_has(e, st, L(e, st, a[0]), LL(e, st, a[1]))


@h("HashMap::insert", "BTreeMap::insert")
def map_insert(e, st, a, ty, ctx):
    m = L(e, st, a[0])
    k = a[1]
    kk = LL(e, st, k)
    c = map_has(e, st, m, kk)

    def go(old):
        def f(s):
            r = some(e, ctx, e.map_get_known(s, m, kk)) if old else none(e, ctx)
            e.storeref(s, a[0], e.map_set(s, m, kk, a[2]), ctx[4])
            return r
        return f
    d = e.decide(st, c)
    if d is None and not e.split_insert:
        e.storeref(st, a[0], e.map_set(st, m, kk, a[2]), ctx[4])
        return mk("app", "oldval", m, kk)
    return bfork(e, st, c, ctx, go(True), go(False))


@h("HashSet::insert", "BTreeSet::insert")
def set_insert(e, st, a, ty, ctx):
    m = L(e, st, a[0])
    kk = LL(e, st, a[1])
    c = map_has(e, st, m, kk)

    def g(s):
        e.storeref(s, a[0], e.map_set(s, m, kk, UNIT), ctx[4])
        return TRUE
    return bfork(e, st, c, ctx, lambda s: FALSE, g)


@h("HashMap::remove", "HashSet::remove", "BTreeMap::remove", "BTreeSet::remove")
def map_remove(e, st, a, ty, ctx):
    m = L(e, st, a[0])
    k = LL(e, st, a[1])
    isset = "Set" in (ctx[1] or ctx[0].t)

    def g(s):
        v = e.map_get_known(s, m, k)
        b, u = e.map_parts(m)
        nu = tuple((x, y) for x, y in u if x is not k)
        e.storeref(s, a[0], mk("map", b, nu if b is None and all(e.eqterm(x, k) is FALSE for x, _ in nu) else nu + ((k, None),)), ctx[4])
        return TRUE if isset else some(e, ctx, v)
    return bfork(e, st, map_has(e, st, m, k), ctx, g, lambda s: FALSE if isset else none(e, ctx))


@h("HashMap::entry", "BTreeMap::entry")
def map_entry(e, st, a, ty, ctx):
    k = LL(e, st, a[1])
    en = mk("entry", a[0], k)
    t = rty(e, ctx)
    tt = e.p.tys[t] if t is not None else {"k": "?"}
    vs = {v["n"].split("::")[-1]: i for i, v in enumerate(tt["v"])} if tt["k"] == "adt" and tt.get("ak") == "enum" else {}
    if "Occupied" not in vs or "Vacant" not in vs:
        return en
    return bfork(e, st, map_has(e, st, L(e, st, a[0]), k), ctx, lambda s: mk("agg", t, vs["Occupied"], (en,)), lambda s: mk("agg", t, vs["Vacant"], (en,)))


def entry_of(e, st, x):
    while x.k in ("ref", "kref"):
        x = e.loadref(st, x)
    if x.k == "agg" and len(x.a[2]) == 1:
        x = x.a[2][0]
    return x if x.k == "entry" else None


@h("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def occ_get(e, st, a, ty, ctx):
    en = entry_of(e, st, a[0])
    if en is None:
        return NotImplemented
    return mk("ref", *_mv(e, st, en.a[0], en.a[1]))


@h("OccupiedEntry::insert")
def occ_insert(e, st, a, ty, ctx):
    en = entry_of(e, st, a[0])
    if en is None:
        return NotImplemented
    m = L(e, st, en.a[0])
    old = e.map_get_known(st, m, en.a[1])
    e.storeref(st, en.a[0], e.map_set(st, m, en.a[1], a[1]), ctx[4])
    return old


@h("VacantEntry::insert")
def vac_insert(e, st, a, ty, ctx):
    en = entry_of(e, st, a[0])
    if en is None:
        return NotImplemented
    e.storeref(st, en.a[0], e.map_set(st, L(e, st, en.a[0]), en.a[1], a[1]), ctx[4])
    return mk("ref", *_mv(e, st, en.a[0], en.a[1]))


@h("Entry::key", "OccupiedEntry::key", "VacantEntry::key")
def ent_key(e, st, a, ty, ctx):
    en = entry_of(e, st, a[0])
    return NotImplemented if en is None else kref(en.a[1])


@h("Entry::and_modify")
def and_modify(e, st, a, ty, ctx):
    en = entry_of(e, st, a[0])
    if en is None:
        return NotImplemented
    keep = a[0]

    def present(s):
        n = len(s.frames)
        e.call_closure(s, [a[1], tup(mk("ref", *_mv(e, s, en.a[0], en.a[1])))], [ty[1], None], ctx[2], ctx[3], ctx[4])
        if len(s.frames) != n + 1:
            return keep
        s.frames[-1].cont = ((lambda eng, s2, fr, v: eng.resume(s2, fr, keep)),)
        import core
        return core.PUSHED
    return bfork(e, st, map_has(e, st, L(e, st, en.a[0]), en.a[1]), ctx, present, lambda s: keep)


@h("Entry::or_insert", "Entry::or_default", "Entry::or_insert_with")
def or_insert(e, st, a, ty, ctx):
    en = entry_of(e, st, a[0])
    if en is None:
        return NotImplemented
    m = L(e, st, en.a[0])
    k = en.a[1]
    nm = ctx[1] or ctx[0].t
    if "or_insert_with" in nm:
        def absent(s):
            n = len(s.frames)
            e.call_closure(s, [a[1], tup()], [ty[1], None], ctx[2], ctx[3], ctx[4])
            if len(s.frames) != n + 1:
                return mk("ref", *_mv(e, s, en.a[0], k))

            def fin(eng, s2, fr, v):
                eng.storeref(s2, en.a[0], eng.map_set(s2, L(eng, s2, en.a[0]), k, v), ctx[4])
                return eng.resume(s2, fr, mk("ref", *_mv(eng, s2, en.a[0], k)))
            s.frames[-1].cont = (fin,)
            import core
            return core.PUSHED
        return bfork(e, st, map_has(e, st, m, k), ctx, lambda s: mk("ref", *_mv(e, s, en.a[0], k)), absent)
    if "or_default" in nm:
        vt = pointee(e, rty(e, ctx))
        v = default_of(e, vt)
        if v is None:
            return NotImplemented
    else:
        v = a[1]

    def g(s):
        e.storeref(s, en.a[0], e.map_set(s, m, k, v), ctx[4])
        return mk("ref", *_mv(e, s, en.a[0], k))
    return bfork(e, st, map_has(e, st, m, k), ctx, lambda s: mk("ref", *_mv(e, s, en.a[0], k)), g)


# ------------------------------------------------------------------ clone / eq / ord
@h("Clone::clone", "<String as Clone>::clone", "<Vec as Clone>::clone", "<HashMap as Clone>::clone", "<Option as Clone>::clone", "<HashSet as Clone>::clone", "<Box as Clone>::clone",
   "<BTreeMap as Clone>::clone", "<T as ToOwned>::to_owned", "ToOwned::to_owned", "<Global as Clone>::clone", "<VecDeque as Clone>::clone")
def clone(e, st, a, ty, ctx):
    fn = ctx[0]
    if fn is not None and fn.local:
        return NotImplemented
    v = L(e, st, a[0])
    if "Box" in (fn.t if fn is not None else ""):
        return e.heap(st, L(e, st, v))
    return v


@h("String::to_string", "str::to_owned", "<str as ToOwned>::to_owned", "<String as From>::from", "str::to_string", "<String as FromStr>::from_str_", "String::into_string", "str::into_string",
   "<str as SpecToString>::spec_to_string", "<String as SpecToString>::spec_to_string", "<Box as From>::from")
def to_string_id(e, st, a, ty, ctx):
    t = e.p.tys[ty[0]] if ty[0] is not None else {"k": "ref"}
    if t["k"] == "char":
        return mk_str([mk("ch", a[0])])
    if "Box" in (ctx[0].t if ctx[0] is not None else ""):
        return a[0] if a[0].k == "ref" else e.heap(st, a[0])
    return LL(e, st, a[0])


@h("<T as ToString>::to_string", "ToString::to_string")
def to_string(e, st, a, ty, ctx):
    t = pointee(e, ty[0])
    v = LL(e, st, a[0])
    return mk_str(disp(e, v, t, "display", ()))


def disp(e, v, t, kind, spec):
    """parts of the formatted value"""
    tt = e.p.tys[t] if t is not None else {"k": "?"}
    if kind == "display" and not spec:
        if tt["k"] == "str" or str(tt.get("n", "")).endswith("string::String") or v.k == "str":
            return str_parts(v)
        if tt["k"] == "char":
            return (mk("ch", v),)
        if tt["k"] in ("int", "uint") and v.k == "int":
            return (mk("lit", str(v.a[0])),)
    return (mk("S", mk("fmtv", kind, v, spec)),)


def is_strty(e, t):
    t = pointee(e, t)
    if t is None:
        return False
    tt = e.p.tys[t]
    return tt["k"] == "str" or str(tt.get("n", "")).endswith("string::String")


def generic_eq(e, st, x, y, t):
    x, y = LL(e, st, x), LL(e, st, y)
    tt = e.p.tys[t] if t is not None else {"k": "?"}
    if x is y and tt["k"] != "float":
        return TRUE
    if tt["k"] == "str" or str(tt.get("n", "")).endswith("string::String"):
        return e.streq(x, y)
    if tt["k"] in ("int", "uint", "char"):
        return eq(x, y)
    if tt["k"] in ("float", "bool"):
        return e.binop(st, "Eq", x, y, t)
    return None


def pe(e, st, a, ty, ctx, neg=False):
    t = pointee(e, ty[0])
    t2 = pointee(e, ty[1])
    if is_strty(e, t) and is_strty(e, t2):
        r = e.streq(LL(e, st, a[0]), LL(e, st, a[1]))
    else:
        r = generic_eq(e, st, a[0], a[1], t)
        if r is None:
            x, y = LL(e, st, a[0]), LL(e, st, a[1])
            tt = e.p.tys[t] if t is not None else {"k": "?"}
            # find the local derive and run it
            if tt["k"] == "adt":
                fn = find_eq(e, t)
                if fn is not None and not neg:
                    return e.run_fn(st, fn, [as_ref(a[0], e, st), as_ref(a[1], e, st)], ctx)
                if fn is not None and neg:
                    return e.run_fn(st, fn, [as_ref(a[0], e, st), as_ref(a[1], e, st)], ctx, not_)
                if tt["ak"] == "enum" and all(not v["f"] for v in tt["v"]):
                    r = eq(e.disc(st, x, t), e.disc(st, y, t))
            if r is None:
                r = e.eqterm(dsnap(e, st, x), dsnap(e, st, y))
    return not_(r) if neg else r


def dsnap(e, st, v, d=0):
    """a value with the references in it (lists included) replaced by what they point to"""
    if d > 6:
        return v
    if v.k == "ref":
        return dsnap(e, st, e.loadref(st, v), d + 1)
    if v.k == "agg":
        fs = [dsnap(e, st, x, d + 1) for x in v.a[2]]
        return v if all(x is y for x, y in zip(fs, v.a[2])) else agg(v.a[0], v.a[1], fs)
    it = known_items(v) if v.k == "list" else None
    if it is not None and any(x.k in ("ref", "agg", "list") for x in it):
        ns = tuple(dsnap(e, st, x, d + 1) for x in it)
        return v if all(x is y for x, y in zip(ns, it)) else mk("list", None, (), ns)
    return v


def as_ref(r, e, st):
    """strip one level of && if needed: keep the innermost reference"""
    while True:
        v = e.loadref(st, r)
        if v.k == "ref":
            r = v
        else:
            return r


def find_eq(e, t):
    d = e.p.tys[t]["n"]
    if not hasattr(e, "_eqs"):
        e._eqs = {}
        for f in e.p.fns:
            if f.local and f.raw is not None and f.t.endswith(" as std::cmp::PartialEq>::eq"):
                e._eqs.setdefault(f.t[1:].split(" as ")[0], f)
    return e._eqs.get(d)


for _n in ("<String as PartialEq>::eq", "<str as PartialEq>::eq", "<&A as PartialEq>::eq", "<&B as PartialEq>::eq", "<usize as PartialEq>::eq", "<f64 as PartialEq>::eq", "<&str as PartialEq>::eq", "<char as PartialEq>::eq",
           "<bool as PartialEq>::eq", "<i32 as PartialEq>::eq", "<u32 as PartialEq>::eq", "<u8 as PartialEq>::eq", "PartialEq::eq", "<Option as PartialEq>::eq", "<Vec as PartialEq>::eq", "<&mut A as PartialEq>::eq"):
    def _f(e, st, a, ty, ctx):
        if ctx[0] is not None and ctx[0].local:
            return NotImplemented
        return pe(e, st, a, ty, ctx)
    TAB[_n] = _f
    TAB[_n.replace("::eq", "::ne")] = lambda e, st, a, ty, ctx: pe(e, st, a, ty, ctx, True) if not (ctx[0] is not None and ctx[0].local) else NotImplemented


def numk(e, t):
    return t is not None and e.p.tys[t]["k"] in ("int", "uint", "char")


def cmpop(op):
    def f(e, st, a, ty, ctx):
        fn = ctx[0]
        if fn is not None and fn.local:
            return NotImplemented
        t = pointee(e, ty[0])
        x, y = LL(e, st, a[0]), LL(e, st, a[1])
        tt = e.p.tys[t] if t is not None else {"k": "?"}
        if tt["k"] == "float":
            return e.fbin(op, x, y)
        if tt["k"] in ("int", "uint", "char", "bool"):
            return e.binop(st, op, x, y, t)
        if tt["k"] == "adt" and tt["n"].split("::")[-1] in ("Level", "LevelFilter"):
            def dv(v, ty):
                if v.k == "int":
                    return v
                if v.k == "agg":
                    return Int(int(e.p.tys[v.a[0]]["v"][v.a[1]]["d"]))
                return v
            x, y = dv(x, t), dv(y, t)
            if x.k == "int" and y.k == "int":
                return e.binop(st, op, x, y, None)
            return FALSE
        return NotImplemented
    return f


for _o, _m in (("Lt", "lt"), ("Le", "le"), ("Gt", "gt"), ("Ge", "ge")):
    TAB["PartialOrd::" + _m] = cmpop(_o)
    for _t in ("usize", "i32", "u32", "f64", "char", "&A", "u8", "u64", "i64", "Level"):
        TAB["<%s as PartialOrd>::%s" % (_t, _m)] = cmpop(_o)


@h("<usize as Ord>::cmp", "<i32 as Ord>::cmp", "<u32 as Ord>::cmp", "<char as Ord>::cmp", "<u64 as Ord>::cmp", "<i64 as Ord>::cmp")
def ord_cmp(e, st, a, ty, ctx):
    x, y = LL(e, st, a[0]), LL(e, st, a[1])
    return mkord(e, st, x, y, rty(e, ctx))


def mkord(e, st, x, y, t):
    d = sub(x, y)
    if d.k == "int":
        return enum(e, t, "Less" if d.a[0] < 0 else "Equal" if d.a[0] == 0 else "Greater")
    if e.decide(st, lt(x, y)) is True:
        return enum(e, t, "Less")
    if e.decide(st, eq(x, y)) is True:
        return enum(e, t, "Equal")
    if e.decide(st, lt(y, x)) is True:
        return enum(e, t, "Greater")
    r = mk("ordcmp", x, y)
    r.ty = t
    return r


@h("<f64 as PartialOrd>::partial_cmp", "<usize as PartialOrd>::partial_cmp", "f64::total_cmp")
def partial_cmp(e, st, a, ty, ctx):
    x, y = LL(e, st, a[0]), LL(e, st, a[1])
    if x.k == "flt" and y.k == "flt" and "nan" not in (x.a[0], y.a[0]):
        fx, fy = float(x.a[0]), float(y.a[0])
        t = rty(e, ctx)
        tot = "total_cmp" in (ctx[1] or ctx[0].t)
        o = enum(e, t if tot else e.p.tys[t]["a"][0], "Less" if fx < fy else "Equal" if fx == fy else "Greater")
        return o if tot else some(e, ctx, o)
    if e.keep_fcmp and e.reals is None and "usize" not in ctx[0].t:
        t = rty(e, ctx)
        tot = "total_cmp" in (ctx[1] or ctx[0].t)
        ot = t if tot else e.p.tys[t]["a"][0]
        w = lambda o: enum(e, ot, o) if tot else some(e, ctx, enum(e, ot, o))
        return bfork(e, st, mk("fcmp", "Lt", x, y), ctx, lambda s: w("Less"),
                     lambda s: bfork(e, s, mk("fcmp", "Eq", x, y), ctx, lambda s2: w("Equal"), lambda s2: w("Greater")))
    if "total_cmp" in (ctx[1] or ""):
        return mk("app", "total_cmp", x, y)
    if "usize" in ctx[0].t:
        ot = e.p.tys[rty(e, ctx)]["a"][0]
        return some(e, ctx, mkord(e, st, x, y, ot))
    return mk("app", "partial_cmp", x, y)


@h("<usize as Ord>::max", "<i32 as Ord>::max", "<u32 as Ord>::max", "<u64 as Ord>::max")
def ord_max(e, st, a, ty, ctx):
    return bfork(e, st, lt(a[1], a[0]), ctx, lambda s: a[0], lambda s: a[1])


@h("<usize as Ord>::min", "<i32 as Ord>::min", "<u32 as Ord>::min")
def ord_min(e, st, a, ty, ctx):
    return bfork(e, st, lt(a[1], a[0]), ctx, lambda s: a[1], lambda s: a[0])


@h("cmp::max", "cmp::min")
def cmp_max(e, st, a, ty, ctx):
    if not numk(e, ty[0]):
        return NotImplemented
    return (ord_max if ctx[0].t.endswith("max") else ord_min)(e, st, a, ty, ctx)


# ------------------------------------------------------------------ floats
def ffun(name, comm=False):
    def f(e, st, a, ty, ctx):
        import math
        if all(x.k == "flt" for x in a):
            v = [float(x.a[0]) for x in a]
            try:
                r = {"Max": lambda: max(v), "Min": lambda: min(v), "Abs": lambda: abs(v[0]), "Sqrt": lambda: math.sqrt(v[0]), "Sin": lambda: math.sin(v[0]),
                     "Cos": lambda: math.cos(v[0]), "Rad": lambda: math.radians(v[0])}.get(name)
                if r:
                    return Flt(r())
            except ValueError:
                pass
        x = a
        if e.reals is not None and name in ("Max", "Min"):
            for t, u in ((a[0], a[1]), (a[1], a[0])):
                if t.k == "flt" and t.a[0] in ("inf", "-inf"):
                    return t if (t.a[0] == "inf") == (name == "Max") else u
        if comm:
            x = sorted(a, key=lambda t: t.id)
        return mk("fop", name, *x)
    return f


for _n, _k, _c in (("max", "Max", 1), ("min", "Min", 1), ("abs", "Abs", 0), ("sqrt", "Sqrt", 0), ("sin", "Sin", 0), ("cos", "Cos", 0), ("to_radians", "Rad", 0), ("signum", "Sgn", 0),
                   ("floor", "Floor", 0), ("ceil", "Ceil", 0), ("round", "Round", 0), ("powi", "Powi", 0), ("powf", "Powf", 0), ("atan2", "Atan2", 0), ("hypot", "Hypot", 0), ("copysign", "Copysign", 0)):
    TAB["f64::" + _n] = ffun(_k, _c)


@h("f64::is_finite", "f64::is_nan", "f64::is_infinite", "f64::is_sign_negative")
def is_finite(e, st, a, ty, ctx):
    n = (ctx[1] or ctx[0].t).split("::")[-1]
    if a[0].k == "flt":
        import math
        v = float(a[0].a[0])
        return Bool({"is_finite": math.isfinite(v), "is_nan": math.isnan(v), "is_infinite": math.isinf(v), "is_sign_negative": v < 0}[n])
    if e.reals is not None and n in ("is_finite", "is_nan", "is_infinite"):
        return Bool(n == "is_finite")
    return mk("app", n + "?bool", a[0])


# ------------------------------------------------------------------ chars
def rset(*rs):
    return tuple(rs)


ASC = {
    "is_ascii_alphabetic": ((65, 90), (97, 122)),
    "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)),
    "is_ascii_control": ((0, 31), (127, 127)),
    "is_ascii_digit": ((48, 57),),
    "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)),
    "is_ascii_uppercase": ((65, 90),),
    "is_ascii_lowercase": ((97, 122),),
    "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126)),
    "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)),
    "is_ascii_graphic": ((33, 126),),
    "is_ascii": ((0, 127),),
    "is_whitespace": ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)),
}
UNI = {
    "is_numeric": ((48, 57),),
    "is_alphabetic": ((65, 90), (97, 122)),
    "is_alphanumeric": ((48, 57), (65, 90), (97, 122)),
    "is_control": ((0, 31), (127, 127)),
    "is_uppercase": ((65, 90),),
    "is_lowercase": ((97, 122),),
}


def charpred(name):
    def f(e, st, a, ty, ctx):
        from core import iv_not, iv_and
        c = LL(e, st, a[0])
        if c.ty is None and c.k in ("sym", "fld", "elem", "app"):
            c.ty = e.p.ty_by_d.get("char")
        if name in ASC:
            yes = ASC[name]
            parts = [(yes, TRUE), (iv_and(iv_not(yes), ((0, 0x10FFFF),)), FALSE)]
        elif name == "is_digit":
            if a[1].k != "int" or a[1].a[0] > 10:
                yes = ((48, 57), (65, 70), (97, 102)) if a[1].k == "int" and a[1].a[0] == 16 else None
                if yes is None:
                    return mk("app", "is_digit?bool", c, a[1])
            else:
                yes = ((48, 47 + a[1].a[0]),)
            parts = [(yes, TRUE), (iv_and(iv_not(yes), ((0, 0x10FFFF),)), FALSE)]
        else:
            yes = UNI[name]
            parts = [(yes, TRUE), (iv_and(iv_not(yes), ((0, 127),)), FALSE), (((128, 0x10FFFF),), None)]
        out = []
        for iv, v in parts:
            s = st.copy()
            if e.restrict(s, c, iv):
                out.append((s, v if v is not None else mk("app", name + "?bool", c)))
        if len(out) > 1:
            for s, v in out:
                e.forked(s)
                e.note(s, ctx[4], (mk("app", name, c), v))
            return out
        if not out:
            return None
        st.facts = out[0][0].facts
        return out[0][1]
    return f


for _n in list(ASC) + list(UNI) + ["is_digit"]:
    TAB["char::" + _n] = charpred(_n)


# ------------------------------------------------------------------ strings
@h("String::push")
def s_push(e, st, a, ty, ctx):
    s = L(e, st, a[0])
    e.storeref(st, a[0], mk_str(list(str_parts(s)) + [mk("ch", a[1])]), ctx[4])
    return UNIT


@h("String::push_str", "<String as AddAssign>::add_assign", "models::push_str")
def s_push_str(e, st, a, ty, ctx):
    s = L(e, st, a[0])
    x = LL(e, st, a[1])
    e.storeref(st, a[0], mk_str(list(str_parts(s)) + list(str_parts(x))), ctx[4])
    return UNIT


@h("<String as Add>::add")
def s_add(e, st, a, ty, ctx):
    return mk_str(list(str_parts(a[0])) + list(str_parts(LL(e, st, a[1]))))


@h("String::len", "str::len")
def s_len(e, st, a, ty, ctx):
    return e.strlen(LL(e, st, a[0]))


@h("String::is_empty", "str::is_empty")
def s_is_empty(e, st, a, ty, ctx):
    s = LL(e, st, a[0])
    if s.k == "str":
        if any(p.k in ("lit", "ch") for p in s.a[0]):
            return FALSE
        if not s.a[0]:
            return TRUE
    return e.streq(s, Lit(""))


def chars_list(e, s):
    c = str_const(s)
    if c is not None:
        return mk("list", None, (), tuple(Int(ord(x)) for x in c))
    if s.k == "str" and all(p.k in ("lit", "ch") for p in s.a[0]):
        it = []
        for p in s.a[0]:
            if p.k == "lit":
                it += [Int(ord(x)) for x in p.a[0]]
            else:
                it.append(p.a[0])
        return mk("list", None, (), tuple(it))
    if s.k == "app" and s.a[0] == "str_of":
        return s.a[1]
    return mk("chars", s)


@h("str::chars", "str::char_indices", "str::bytes")
def s_chars(e, st, a, ty, ctx):
    l = chars_list(e, LL(e, st, a[0]))
    n = ctx[0].t.split("::")[-1] if ctx[0] is not None else ctx[1].split("::")[-1]
    if n == "bytes":
        c = str_const(LL(e, st, a[0]))
        l = mk("list", None, (), tuple(Int(x) for x in c.encode())) if c is not None else mk("bytesof", LL(e, st, a[0]))
    return mkiter("cidx" if n == "char_indices" else "val", l, Int(0), list_len(l))


def split_known(e, st, s, sep, no=()):
    """pieces of a string whose characters are all known to be / not to be the separator; None if not decided"""
    out, cur = [], []
    for p in str_parts(s):
        if p.k == "lit":
            if any(chr(x) in p.a[0] for x in no):
                return None
            ps = p.a[0].split(sep)
            cur.append(mk("lit", ps[0]))
            for x in ps[1:]:
                out.append(mk_str(cur))
                cur = [mk("lit", x)]
        elif p.k == "ch":
            for x in no:
                if e.decide(st, eq(p.a[0], Int(x))) is not False:
                    return None
            d = e.decide(st, eq(p.a[0], Int(ord(sep))))
            if d is None:
                return None
            if d:
                out.append(mk_str(cur))
                cur = []
            else:
                cur.append(p)
        else:
            return None
    out.append(mk_str(cur))
    return out


def patchar(e, st, a, ty):
    """the single character of a char or &str pattern"""
    if e.p.tys[ty]["k"] == "char":
        return chr(a.a[0]) if a.k == "int" else None
    c = str_const(LL(e, st, a)) if LL(e, st, a).k == "str" else None
    return c if c is not None and len(c) == 1 else None


@h("str::split")
def s_split(e, st, a, ty, ctx):
    c = patchar(e, st, a[1], ty[1])
    ls = split_known(e, st, LL(e, st, a[0]), c) if c is not None else None
    if ls is None:
        return NotImplemented
    l = mk("list", None, (), tuple(kref(x) for x in ls))
    return mkiter("val", l, Int(0), list_len(l))


@h("str::split_once")
def s_split_once(e, st, a, ty, ctx):
    s = LL(e, st, a[0])
    kc = char_terms(s) if s.k == "str" else None
    alts = pat_lists(e, st, a[1], ty[1]) if kc is not None else None
    if alts is None or len(alts) != 1 or len(kc) > 16:
        return NotImplemented
    m = len(alts[0])
    ix = range(max(0, len(kc) - m + 1))
    one = lambda cs: kref(mk_str([mk("ch", c) for c in cs]))
    return fork_first(e, st, [match_cond(kc, i, alts[0]) for i in ix], lambda q, i: some(e, ctx, tup(one(kc[:i]), one(kc[i + m:]))), lambda q: none(e, ctx))


@h("String::pop")
def str_pop(e, st, a, ty, ctx):
    s = L(e, st, a[0])
    kc = char_terms(s) if s.k == "str" else None
    if kc is None:
        return NotImplemented
    if not kc:
        return none(e, ctx)
    e.storeref(st, a[0], mk_str([mk("ch", c) for c in kc[:-1]]), ctx[4])
    return some(e, ctx, kc[-1])


@h("str::replace")
def s_replace(e, st, a, ty, ctx):
    c = patchar(e, st, a[1], ty[1])
    ls = split_known(e, st, LL(e, st, a[0]), c) if c is not None else None
    if ls is None:
        return TAB_replace(e, st, a, ty, ctx)
    r = []
    for i, x in enumerate(ls):
        if i:
            r += list(str_parts(LL(e, st, a[2])))
        r += list(str_parts(x))
    return mk_str(r)


@h("str::lines")
def s_lines(e, st, a, ty, ctx):
    s = LL(e, st, a[0])
    c = str_const(s)
    if c is not None and "\r" not in c:
        ls = c.split("\n")
        if ls and ls[-1] == "":
            ls.pop()
        l = mk("list", None, (), tuple(kref(Lit(x)) for x in ls))
        return mkiter("val", l, Int(0), list_len(l))
    ls = split_known(e, st, s, "\n", no=(13,))
    if ls is not None:
        if len(ls) and str_const(ls[-1]) == "":
            ls.pop()
        l = mk("list", None, (), tuple(kref(x) for x in ls))
        return mkiter("val", l, Int(0), list_len(l))
    n = mk("app", "nlines", s)
    n.ty = e.usize()
    return mkiter("lines", s, Int(0), n)


def str_of_list(l):
    b, u, it = list_parts(l)
    if b is None and not u:
        return mk_str([mk("ch", c) for c in it])
    if b is not None and b.k == "chars" and not u:
        return mk_str(list(str_parts(b.a[0])) + [mk("ch", c) for c in it])
    return mk("app", "str_of", l)


@h("models::collect", "models::from_iter", "Iterator::collect")
def collect(e, st, a, ty, ctx):
    it = a[0]
    t = rty(e, ctx)
    if it.k != "iter" or t is None:
        return NotImplemented
    n = str(e.p.tys[t].get("n", ""))
    l = None
    if it.a[0] == "val":
        l = mk_slice(it.a[1], it.a[2], it.a[3]) if not (it.a[2] is Int(0) and it.a[3] is list_len(it.a[1])) else it.a[1]
    if l is None:
        return NotImplemented
    if n.endswith("vec::Vec"):
        return l
    if n.endswith("string::String"):
        et = None
        b, u, its = list_parts(l)
        if b is not None and b.k in ("chars",) or its and its[0].k == "int":
            return str_of_list(l)
    return NotImplemented


def substr(e, st, s, lo, hi):
    if lo.k == "int" and lo.a[0] == 0 and hi is e.strlen(s):
        return s
    c = str_const(s)
    if c is not None and lo.k == "int" and hi.k == "int":
        try:
            return Lit(c.encode()[lo.a[0]:hi.a[0]].decode())
        except UnicodeDecodeError:
            pass
    cs = char_terms(s) if s.k == "str" else None
    if cs is not None:
        ends = [Int(0)]
        for x in cs:
            ends.append(add(ends[-1], utf8len(e, st, x)))
        i = [k for k, x in enumerate(ends) if x is lo]
        j = [k for k, x in enumerate(ends) if x is hi or hi is e.strlen(s) and k == len(cs)]
        if len(i) == 1 and len(j) == 1 and i[0] <= j[0]:
            return mk_str([mk("ch", x) for x in cs[i[0]:j[0]]])
    return mk("app", "substr", s, lo, hi)


def utf8len(e, st, c):
    if c.k == "int":
        return Int(len(chr(c.a[0]).encode()))
    r = e.rng(st, c)
    if r and max(h for _, h in r) < 128:
        return Int(1)
    t = mk("app", "utf8len", c)
    t.ty = e.usize()
    return t


def trim_chars(e, st, cs, left, right, test):
    """test(char) -> bool or None; None if not decided"""
    i, j = 0, len(cs)
    while left and i < j:
        d = test(cs[i])
        if d is None:
            return None
        if not d:
            break
        i += 1
    while right and i < j:
        d = test(cs[j - 1])
        if d is None:
            return None
        if not d:
            break
        j -= 1
    return cs[i:j]


def is_ws(e, st):
    ws = ASC["is_whitespace"]

    def f(c):
        if c.k == "int":
            return any(l <= c.a[0] <= h for l, h in ws)
        from core import iv_and, iv_not
        r = e.rng(st, c)
        if not iv_and(r, ws):
            return False
        if not iv_and(r, iv_not(ws)):
            return True
        return None
    return f


def strim(name, left, right, fold):
    base = sfun(name, fold)

    def f(e, st, a, ty, ctx):
        s = LL(e, st, a[0])
        cs = char_terms(s) if s.k == "str" and str_const(s) is None else None
        if cs is not None:
            test = is_ws(e, st)
            if len(a) > 1:
                alts = pat_lists(e, st, a[1], ty[1]) if ty[1] is not None else None
                if alts is None or any(len(x) != 1 for x in alts):
                    return base(e, st, a, ty, ctx)

                def test(c):
                    ds = [match_at(e, st, [c], 0, x) for x in alts]
                    return True if True in ds else None if None in ds else False
            r = trim_chars(e, st, cs, left, right, test)
            if r is not None:
                return kref(mk_str([mk("ch", x) for x in r]))
        return base(e, st, a, ty, ctx)
    return f


def sfun(name, fold=None, res="str", bool_=False):
    def f(e, st, a, ty, ctx):
        args = [LL(e, st, x) for x in a]
        cs = [str_const(x) if x.k == "str" else (chr(x.a[0]) if x.k == "int" and e.p.tys[ty[i]]["k"] == "char" else None) for i, x in enumerate(args)]
        if fold is not None and all(c is not None for c in cs):
            r = fold(*cs)
            if isinstance(r, bool):
                return Bool(r)
            return kref(Lit(r)) if res == "str" else Lit(r)
        if args[0].k == "agg" or any(x.k == "agg" and x.a[0] >= 0 for x in args):
            # closures as patterns: identity by type
            args = [x if not (x.k == "agg" and x.a[0] >= 0) else mk("app", "pat%d" % x.a[0]) for x in args]
        t = mk("app", name + ("?bool" if bool_ else ""), *args)
        return t if res == "own" or bool_ else kref(t)
    return f


WS = "\t\n\x0b\x0c\r \x85\xa0"
TAB["str::trim"] = strim("trim", 1, 1, lambda s: _tws(s, 1, 1))
TAB["str::trim_start"] = strim("trim_start", 1, 0, lambda s: _tws(s, 1, 0))
TAB["str::trim_end"] = strim("trim_end", 0, 1, lambda s: _tws(s, 0, 1))
TAB["str::trim_start_matches"] = strim("trim_start_matches", 1, 0, lambda s, p: _tsm(s, p))
TAB["str::trim_end_matches"] = strim("trim_end_matches", 0, 1, None)
TAB["str::trim_matches"] = strim("trim_matches", 1, 1, None)


def char_terms(t):
    """characters of a string all of whose parts are characters, else None"""
    out = []
    for p in str_parts(t):
        if p.k == "lit":
            out += [Int(ord(c)) for c in p.a[0]]
        elif p.k == "ch":
            out.append(p.a[0])
        else:
            return None
    return out


def pat_lists(e, st, a, ty):
    """alternatives of a text pattern, each a list of characters; None if not known"""
    if e.p.tys[ty]["k"] == "char":
        return [[a]]
    v = LL(e, st, a)
    if v.k == "list" and v.a[0] is None and not v.a[1]:
        xs = [LL(e, st, x) for x in v.a[2]]
        return [[x] for x in xs]
    if v.k == "str":
        c = char_terms(v)
        return [c] if c is not None else None
    return None


def match_at(e, st, cs, i, alt):
    r = True
    if i < 0 or i + len(alt) > len(cs):
        return False
    for k, x in enumerate(alt):
        d = True if cs[i + k] is x else e.decide(st, eq(cs[i + k], x))
        if d is False:
            return False
        if d is None:
            r = None
    return r


def match_cond(cs, i, alt):
    if i < 0 or i + len(alt) > len(cs):
        return FALSE
    r = TRUE
    for k, x in enumerate(alt):
        r = and_(r, eq(cs[i + k], x))
    return r


def fork_first(e, st, conds, hit, none_):
    """[(state, value)]: hit(state, index of the first condition that holds), or none_(state)"""
    out = []
    cur = st
    for i, c in enumerate(conds):
        a, b = e.split(cur, c)
        if a is not None:
            v = hit(a, i)
            out += v if isinstance(v, list) else [(a, v)]
        cur = b
        if cur is None:
            return out
    v = none_(cur)
    out += v if isinstance(v, list) else [(cur, v)]
    return out


def spred(name, fold, where):
    base = sfun(name, fold, bool_=True)

    def f(e, st, a, ty, ctx):
        s = LL(e, st, a[0])
        if s.k == "str" and ty[1] is not None:
            cs, alts = char_terms(s), pat_lists(e, st, a[1], ty[1])
            if cs is not None and alts is not None:
                rs = [match_at(e, st, cs, i, alt) for alt in alts for i in where(len(cs), len(alt))]
                if any(r is True for r in rs):
                    return TRUE
                if not any(r is None for r in rs):
                    return FALSE
                if len(rs) <= 12:
                    return fork_first(e, st, [match_cond(cs, i, alt) for alt in alts for i in where(len(cs), len(alt))], lambda q, i: TRUE, lambda q: FALSE)
        return base(e, st, a, ty, ctx)
    return f


TAB["str::starts_with"] = spred("starts_with", lambda s, p: s.startswith(p), lambda n, m: [0])
TAB["str::ends_with"] = spred("ends_with", lambda s, p: s.endswith(p), lambda n, m: [n - m])
TAB["str::contains"] = spred("contains", lambda s, p: p in s, lambda n, m: range(max(0, n - m + 1)))


def letter_split(e, st, c, iv):
    """(state in which c is in iv | None, state in which it is not | None)"""
    from core import iv_not, iv_and
    if c.k == "int":
        inn = any(lo <= c.a[0] <= hi for lo, hi in iv)
        return (st, None) if inn else (None, st)
    a, b = st.copy(), st.copy()
    ra = e.restrict(a, c, iv)
    rb = e.restrict(b, c, iv_and(iv_not(iv), ((0, 0x10FFFF),)))
    if ra and rb:
        e.forked(a)
        e.forked(b)
        return a, b
    return (st if ra else None), (st if rb else None)


def ascii_case(name, iv, d, fold):
    base = sfun(name, fold, "own")

    def f(e, st, a, ty, ctx):
        s = LL(e, st, a[0])
        cs = char_terms(s) if s.k == "str" else None
        if cs is None or str_const(s) is not None:
            return base(e, st, a, ty, ctx)
        work = [(st, [])]
        for c in cs:
            nxt = []
            for q, got in work:
                x, y = letter_split(e, q, c, iv)
                if x is not None:
                    nxt.append((x, got + [addc(c, d)]))
                if y is not None:
                    nxt.append((y, got + [c]))
            work = nxt
            if len(work) > 64:
                return base(e, st, a, ty, ctx)
        return [(q, mk_str([mk("ch", x) for x in got])) for q, got in work]
    return f


def eq_nocase(e, st, a, ty, ctx):
    x, y = LL(e, st, a[0]), LL(e, st, a[1])
    cx, cy = (char_terms(t) if t.k == "str" else None for t in (x, y))
    if cx is None or cy is None or str_const(x) is not None and str_const(y) is not None:
        return eqic(e, st, a, ty, ctx)
    if len(cx) != len(cy):
        return FALSE
    cur, out = [st], []
    for p, q in zip(cx, cy):
        if p is q:
            continue
        if p.k == "int":
            p, q = q, p
        if q.k != "int":
            return eqic(e, st, a, ty, ctx)
        k = chr(q.a[0])
        iv = tuple(sorted(set((ord(z), ord(z)) for z in ((k.lower(), k.upper()) if k.isascii() else (k,)))))
        nxt = []
        for s in cur:
            h, m = letter_split(e, s, p, iv)
            if h is not None:
                nxt.append(h)
            if m is not None:
                out.append((m, FALSE))
        cur = nxt
    return [(s, TRUE) for s in cur] + out


eqic = sfun("eqic", lambda s, p: s.lower() == p.lower(), bool_=True)
TAB["str::eq_ignore_ascii_case"] = eq_nocase
TAB["str::to_lowercase"] = sfun("to_lowercase", lambda s: s.lower(), "own")
TAB["str::to_uppercase"] = sfun("to_uppercase", lambda s: s.upper(), "own")
TAB["str::to_ascii_lowercase"] = ascii_case("to_ascii_lowercase", ((65, 90),), 32, lambda s: "".join(c.lower() if c.isascii() else c for c in s))
TAB["str::to_ascii_uppercase"] = ascii_case("to_ascii_uppercase", ((97, 122),), -32, lambda s: "".join(c.upper() if c.isascii() else c for c in s))
TAB_replace = sfun("replace", lambda s, p, q: s.replace(p, q), "own")
TAB["char::to_ascii_lowercase"] = lambda e, st, a, ty, ctx: (lambda c: Int(ord(chr(c.a[0]).lower())) if c.k == "int" else mk("app", "tolow", c))(LL(e, st, a[0]))


def _tws(s, l, r):
    w = "".join(chr(x) for a, b in ASC["is_whitespace"] for x in range(a, b + 1))
    s = s.lstrip(w) if l else s
    return s.rstrip(w) if r else s


def _tsm(s, p):
    while p and s.startswith(p):
        s = s[len(p):]
    return s


@h("str::strip_prefix", "str::strip_suffix")
def strip_prefix(e, st, a, ty, ctx):
    s, p = LL(e, st, a[0]), LL(e, st, a[1])
    pre = "prefix" in (ctx[1] or ctx[0].t)
    cs = str_const(s)
    cp = str_const(p) if p.k == "str" else (chr(p.a[0]) if p.k == "int" else None)
    kc = char_terms(s) if s.k == "str" and ty[1] is not None else None
    alts = pat_lists(e, st, a[1], ty[1]) if kc is not None else None
    if alts is not None and len(alts) == 1:
        m = len(alts[0])
        d = match_at(e, st, kc, 0 if pre else len(kc) - m, alts[0])
        if d is True:
            return some(e, ctx, kref(mk_str([mk("ch", c) for c in (kc[m:] if pre else kc[:len(kc) - m])])))
        if d is False:
            return none(e, ctx)
    if cs is not None and cp is not None:
        if pre:
            return some(e, ctx, kref(Lit(cs[len(cp):]))) if cs.startswith(cp) else none(e, ctx)
        return some(e, ctx, kref(Lit(cs[:len(cs) - len(cp)]))) if cs.endswith(cp) else none(e, ctx)
    c = mk("app", ("starts_with" if pre else "ends_with") + "?bool", s, p)
    return bfork(e, st, c, ctx, lambda q: some(e, ctx, kref(mk("app", "strip_" + ("prefix" if pre else "suffix"), s, p))), lambda q: none(e, ctx))


def scan(e, st, cs, alts, limit=None):
    """[(state, [(start, length)])]: the matches of a pattern from the left, without overlap; None if it forks too much"""
    work, out = [(st, 0, ())], []
    while work:
        q, i, ms = work.pop()
        if i >= len(cs) or limit is not None and len(ms) >= limit:
            out.append((q, list(ms)))
            continue
        hit = None
        cur = q
        for alt in alts:
            if not alt:
                return None
            a, b = e.split(cur, match_cond(cs, i, alt))
            if a is not None:
                work.append((a, i + len(alt), ms + ((i, len(alt)),)))
            cur = b
            if cur is None:
                break
        if cur is not None:
            work.append((cur, i + 1, ms))
        if len(work) + len(out) > 64:
            return None
    return out


def spieces(name):
    """split and its kin on texts of known characters"""
    def f(e, st, a, ty, ctx):
        s = LL(e, st, a[0])
        cs = char_terms(s) if s.k == "str" else None
        k = 1
        limit = None
        if name in ("splitn", "rsplitn"):
            if a[1].k != "int" or a[1].a[0] == 0:
                return NotImplemented
            limit, k = a[1].a[0] - 1, 2
        if cs is None or len(cs) > 60:
            return NotImplemented
        alts = pat_lists(e, st, a[k], ty[k])
        rev = name[0] == "r"
        if alts is None or rev and any(len(x) != 1 for x in alts):
            return NotImplemented
        rs = scan(e, st, cs[::-1] if rev else cs, alts, limit)
        if rs is None:
            return NotImplemented
        one = lambda x: kref(mk_str([mk("ch", c) for c in x]))
        out = []
        for q, ms in rs:
            if rev:
                ms = [(len(cs) - i - m, m) for i, m in reversed(ms)]
            if name == "matches":
                v = [one(cs[i:i + m]) for i, m in ms]
            else:
                v, at = [], 0
                for i, m in ms:
                    v.append(cs[at:i + (m if name == "split_inclusive" else 0)])
                    at = i + m
                v.append(cs[at:])
                if name in ("split_terminator", "split_inclusive") and not v[-1]:
                    v.pop()
                v = [one(x) for x in v]
                if rev:
                    v.reverse()
            l = mk("list", None, (), tuple(v))
            out.append((q, mkiter("val", l, Int(0), list_len(l))))
        return out[0][1] if len(out) == 1 and out[0][0] is st else out
    return f


for _n in ("splitn", "rsplitn", "rsplit", "split_terminator", "split_inclusive", "matches"):
    TAB["str::" + _n] = spieces(_n)


def split_or_scan(e, st, a, ty, ctx, old=TAB["str::split"]):
    r = old(e, st, a, ty, ctx)
    return spieces("split")(e, st, a, ty, ctx) if r is NotImplemented and ty[1] is not None else r


TAB["str::split"] = split_or_scan


@h("str::rsplit_once")
def s_rsplit_once(e, st, a, ty, ctx):
    s = LL(e, st, a[0])
    kc = char_terms(s) if s.k == "str" else None
    alts = pat_lists(e, st, a[1], ty[1]) if kc is not None else None
    if alts is None or len(alts) != 1 or len(kc) > 16:
        return NotImplemented
    m = len(alts[0])
    ix = list(range(max(0, len(kc) - m + 1)))[::-1]
    one = lambda cs: kref(mk_str([mk("ch", c) for c in cs]))
    return fork_first(e, st, [match_cond(kc, i, alts[0]) for i in ix], lambda q, i: some(e, ctx, tup(one(kc[:ix[i]]), one(kc[ix[i] + m:]))), lambda q: none(e, ctx))


@h("[T]::concat", "[T]::join")
def s_concat(e, st, a, ty, ctx):
    b, u, it = list_parts(LL(e, st, a[0]))
    if b is not None or u:
        return NotImplemented
    sep = LL(e, st, a[1]) if len(a) > 1 else Lit("")
    vs = [LL(e, st, x) for x in it]
    t = rty(e, ctx)
    if t is None or not e.p.tys[t]["d"].endswith("String"):
        return NotImplemented
    out = []
    for i, v in enumerate(vs):
        if i:
            out += list(str_parts(sep))
        out += list(str_parts(v))
    return mk_str(out)


@h("str::repeat", "[T]::repeat")
def s_repeat(e, st, a, ty, ctx):
    s = LL(e, st, a[0])
    c = str_const(s)
    if c is not None and a[1].k == "int":
        return Lit(c * a[1].a[0])
    return mk("app", "repeat", s, a[1])


@h("str::find", "str::rfind")
def s_find(e, st, a, ty, ctx):
    s = LL(e, st, a[0])
    p = LL(e, st, a[1])
    n = (ctx[1] or ctx[0].t).split("::")[-1]
    cs = str_const(s)
    cp = str_const(p) if p.k == "str" else (chr(p.a[0]) if p.k == "int" else None)
    if cs is not None and cp is not None:
        i = cs.find(cp) if n == "find" else cs.rfind(cp)
        return none(e, ctx) if i < 0 else some(e, ctx, Int(len(cs[:i].encode())))
    kc = char_terms(s) if s.k == "str" and ty[1] is not None else None
    alts = pat_lists(e, st, a[1], ty[1]) if kc is not None else None
    if alts is not None and len(alts) == 1 and len(kc) <= 16:
        ix = list(range(max(0, len(kc) - len(alts[0]) + 1)))
        if n != "find":
            ix.reverse()

        def at(q, i):
            pos = Int(0)
            for c in kc[:ix[i]]:
                pos = add(pos, utf8len(e, q, c))
            return some(e, ctx, pos)
        return fork_first(e, st, [match_cond(kc, i, alts[0]) for i in ix], at, lambda q: none(e, ctx))
    if p.k == "agg":
        p = mk("app", "pat%d" % p.a[0])
    has = mk("app", "contains?bool", s, p)
    pos = mk("app", n, s, p)
    pos.ty = e.usize()
    return bfork(e, st, has, ctx, lambda q: some(e, ctx, pos), lambda q: none(e, ctx))


@h("str::parse", "u32::from_str_radix", "usize::from_str_radix", "<usize as FromStr>::from_str", "<f64 as FromStr>::from_str", "<u32 as FromStr>::from_str", "i32::from_str_radix", "u8::from_str_radix", "u64::from_str_radix")
def s_parse(e, st, a, ty, ctx):
    t = rty(e, ctx)
    s = LL(e, st, a[0])
    tt = e.p.tys[t]
    vt = e.p.tys[tt["a"][0]]
    name = vt["d"]
    ok = mk("app", "parses_%s?bool" % name, s, *a[1:])
    cs = str_const(s)
    if cs is not None and vt["k"] in ("int", "uint"):
        rad = a[1].a[0] if len(a) > 1 and a[1].k == "int" else 10
        if re.fullmatch(r"\+?[0-9a-zA-Z]+", cs):
            try:
                v = int(cs, rad)
                if v < 1 << vt.get("b", 64):
                    return enum(e, t, "Ok", Int(v))
            except ValueError:
                pass
        return enum(e, t, "Err", mk("app", "parse_err"))
    kc = char_terms(s) if s.k == "str" else None
    if kc and vt["k"] == "uint":
        rad = 10 if len(a) < 2 else a[1].a[0] if a[1].k == "int" else None
        v = digits(e, st, kc, rad) if rad in (10, 16) else None
        if v is False:
            return enum(e, t, "Err", mk("app", "parse_err"))
        if v is not None and rad ** len(kc) <= 1 << vt.get("b", 64):
            return enum(e, t, "Ok", v)
    v = mk("app", "parse_%s" % name, s, *a[1:])
    v.ty = tt["a"][0]
    return bfork(e, st, ok, ctx, lambda q: enum(e, t, "Ok", v), lambda q: enum(e, t, "Err", mk("app", "parse_err", s)))


def digits(e, st, cs, rad):
    """value of digit characters whose classes are known; False when one of them is no digit (nor a sign), None unknown"""
    from core import iv_and, iv_not
    v = Int(0)
    for c in cs:
        r = ((c.a[0], c.a[0]),) if c.k == "int" else e.rng(st, c)
        for lo, hi, off in ((48, 57, 48), (97, 102, 87), (65, 70, 55)) if rad == 16 else ((48, 57, 48),):
            if r and not iv_and(r, iv_not(((lo, hi),))):
                v = add(mulc(v, rad), addc(c, -off))
                break
        else:
            if not iv_and(r, ((43, 43), (48, 57), (65, 70), (97, 102))):
                return False
            return None
    return v


@h("<&str as Into>::into", "<T as Into>::into", "Into::into")
def into(e, st, a, ty, ctx):
    t = rty(e, ctx)
    if t is not None:
        n = str(e.p.tys[t].get("n", ""))
        if n.endswith("string::String"):
            return to_string_id(e, st, a, ty, ctx)
        if t == ty[0]:
            return a[0]
    return NotImplemented


# ------------------------------------------------------------------ fmt
@h("Argument::new_display", "Argument::new_lower_hex", "Argument::new_debug", "Argument::new_upper_hex", "Argument::new_lower_exp")
def fmt_arg(e, st, a, ty, ctx):
    kind = (ctx[1] or ctx[0].t).split("new_")[-1]
    return mk("fmtarg", kind, LL(e, st, a[0]), pointee(e, ty[0]) if ty[0] is not None else -1)


@h("Argument::from_usize")
def fmt_usz(e, st, a, ty, ctx):
    return mk("fmtarg", "usize", LL(e, st, a[0]), -1)


@h("Arguments::from_str", "Arguments::from_str_nonconst")
def fmt_str(e, st, a, ty, ctx):
    return mk("fmt", mk_str(str_parts(LL(e, st, a[0]))))


@h("Arguments::new")
def fmt_new(e, st, a, ty, ctx):
    tpl = LL(e, st, a[0])
    args = LL(e, st, a[1])
    al = list_parts(args)[2]
    bs = bytes(x.a[0] for x in list_parts(tpl)[2])
    return mk("fmt", mk_str(decode_fmt(e, bs, al)))


def fmt_pad(e, spec, x, al):
    """a text of known length padded to a known width, or None"""
    d = dict(spec)
    if x.a[0] != "display" or set(d) - {"flags", "w", "wi"}:
        return None
    fl = d.get("flags", 0xe0000020)
    if fl & 0x17e00000:
        return None
    w = d.get("w")
    if "wi" in d:
        a = al[d["wi"]]
        if a.k != "fmtarg" or a.a[1].k != "int":
            return None
        w = a.a[1].a[0]
    t = x.a[2] if x.a[2] >= 0 else None
    body = list(disp(e, x.a[1], t, "display", ()))
    if any(p.k not in ("lit", "ch") for p in body):
        return body if not w else None
    n = sum(len(p.a[0]) if p.k == "lit" else 1 for p in body)
    k = max(0, (w or 0) - n)
    al_ = fl >> 29 & 3
    if al_ == 3:
        al_ = 1 if t is not None and e.p.tys[t]["k"] in ("int", "uint", "float") else 0
    c = chr(fl & 0x1fffff)
    left = (0, k, k // 2)[al_]
    return [mk("lit", c * left)] + body + [mk("lit", c * (k - left))]


def decode_fmt(e, bs, al):
    parts = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            parts.append(mk("lit", bs[i:i + b].decode()))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            parts.append(mk("lit", bs[i:i + n].decode()))
            i += n
        else:
            spec = []
            if b & 1:
                spec.append(("flags", int.from_bytes(bs[i:i + 4], "little")))
                i += 4
            if b & 2:
                spec.append(("w" if not b & 16 else "wi", int.from_bytes(bs[i:i + 2], "little")))
                i += 2
            if b & 4:
                spec.append(("p" if not b & 32 else "pi", int.from_bytes(bs[i:i + 2], "little")))
                i += 2
            if b & 8:
                nxt = int.from_bytes(bs[i:i + 2], "little")
                i += 2
            x = al[nxt]
            nxt += 1
            if spec == [("flags", 0xe0000020)]:
                spec = []
            pad = fmt_pad(e, spec, x, al) if spec and x.k == "fmtarg" else None
            if pad is not None:
                parts += pad
            elif x.k == "fmtarg":
                parts += list(disp(e, x.a[1], x.a[2] if x.a[2] >= 0 else None, x.a[0], tuple(spec)))
            else:
                parts.append(mk("S", mk("fmtv", "?", x, tuple(spec))))
    return parts


@h("fmt::format", "fmt::format::format_inner")
def fmt_format(e, st, a, ty, ctx):
    return a[0].a[0] if a[0].k == "fmt" else mk("app", "format", a[0])


def fmt_term(a):
    return a.a[0] if a.k == "fmt" else mk("app", "format", a)


@h("Arguments::as_str", "Arguments::as_statically_known_str")
def fmt_as_str(e, st, a, ty, ctx):
    return NotImplemented


@h("<String as Write>::write_fmt", "Write::write_fmt", "<String as Write>::write_str", "Formatter::write_str", "Formatter::write_fmt", "<String as Write>::write_char", "Write::write_str")
def write_fmt(e, st, a, ty, ctx):
    t = pointee(e, ty[0])
    tt = e.p.tys[t] if t is not None else {}
    if str(tt.get("n", "")).endswith("string::String"):
        s = L(e, st, a[0])
        if a[1].k == "fmt":
            x = str_parts(a[1].a[0])
        elif ty[1] is not None and e.p.tys[ty[1]]["k"] == "char":
            x = (mk("ch", a[1]),)
        else:
            x = str_parts(LL(e, st, a[1]))
        e.storeref(st, a[0], mk_str(list(str_parts(s)) + list(x)), ctx[4])
        return enum(e, rty(e, ctx), "Ok", UNIT)
    if str(tt.get("n", "")).endswith("Formatter"):
        return enum(e, rty(e, ctx), "Ok", UNIT)
    return NotImplemented


@h("io::_print", "io::_eprint", "stdio::_print", "stdio::_eprint")
def io_print(e, st, a, ty, ctx):
    o = st.mon.get("stdout")
    if o is not None:
        st.mon["stdout"] = mk_str(list(str_parts(o)) + (list(str_parts(a[0].a[0])) if a[0].k == "fmt" else [mk("opq", a[0])]))
    return UNIT


@h("__private_api::log", "log::__private_api::log")
def log_log(e, st, a, ty, ctx):
    return UNIT


@h("__private_api::loc")
def log_loc(e, st, a, ty, ctx):
    return mk("app", "loc")


@h("log::max_level")
def log_max(e, st, a, ty, ctx):
    t = rty(e, ctx)
    return enum(e, t, "Off")


@h("Instant::now", "Instant::elapsed", "Duration::as_secs", "Duration::as_millis")
def now(e, st, a, ty, ctx):
    return e.fresh(st, "time")


@h("Location::caller", "intrinsics::caller_location")
def caller(e, st, a, ty, ctx):
    return mk("app", "loc")


@h("intrinsics::cold_path", "intrinsics::assert_inhabited", "hint::assert_unchecked", "intrinsics::assume")
def cold(e, st, a, ty, ctx):
    return UNIT


@h("usize::saturating_sub")
def sat_sub(e, st, a, ty, ctx):
    return bfork(e, st, lt(a[0], a[1]), ctx, lambda s: Int(0), lambda s: sub(a[0], a[1]))


@h("usize::checked_sub")
def chk_sub(e, st, a, ty, ctx):
    return bfork(e, st, lt(a[0], a[1]), ctx, lambda s: none(e, ctx), lambda s: some(e, ctx, sub(a[0], a[1])))


@h("usize::checked_add", "usize::saturating_add", "usize::wrapping_add")
def chk_add(e, st, a, ty, ctx):
    v = add(a[0], a[1])
    return some(e, ctx, v) if "checked" in (ctx[1] or ctx[0].t) else v


# ------------------------------------------------------------------ more of the library
@h("[T]::windows", "[T]::chunks", "[T]::chunks_exact", "[T]::rchunks")
def sl_windows(e, st, a, ty, ctx):
    l = L(e, st, a[0])
    it = known_items(l)
    if it is None or a[1].k != "int":
        return NotImplemented
    n, k = len(it), a[1].a[0]
    nm = (ctx[1] or ctx[0].t).split("::")[-1]
    if k == 0:
        e.panic(st, nm + " of size zero", ctx[4])
        return None
    if nm == "windows":
        ix = [(i, i + k) for i in range(n - k + 1)]
    elif nm == "rchunks":
        ix = [(max(0, j - k), j) for j in range(n, 0, -k)]
    else:
        ix = [(i, min(n, i + k)) for i in range(0, n, k)]
        if nm == "chunks_exact":
            ix = [(i, j) for i, j in ix if j - i == k]
    l = mk("list", None, (), tuple(sub_ref(e, st, a[0], ("s", Int(i), Int(j))) for i, j in ix))
    return mkiter("val", l, Int(0), list_len(l))


@h("[T]::split_at_mut")
def sl_split_mut(e, st, a, ty, ctx):
    n = list_len(L(e, st, a[0]))
    if e.bound(st, le(a[1], n), "split_at", ctx[4], L(e, st, a[0]), a[1]) is False:
        return None
    return tup(sub_ref(e, st, a[0], ("s", Int(0), a[1])), sub_ref(e, st, a[0], ("s", a[1], n)))


@h("[T]::split_first_mut", "[T]::split_last_mut")
def sl_split_first_mut(e, st, a, ty, ctx):
    n = list_len(L(e, st, a[0]))
    first = "first" in (ctx[1] or ctx[0].t)

    def go(s):
        if first:
            return some(e, ctx, tup(sub_ref(e, s, a[0], ("i", Int(0))), sub_ref(e, s, a[0], ("s", Int(1), n))))
        return some(e, ctx, tup(sub_ref(e, s, a[0], ("i", addc(n, -1))), sub_ref(e, s, a[0], ("s", Int(0), addc(n, -1)))))
    return bfork(e, st, lt(Int(0), n), ctx, go, lambda s: none(e, ctx))


def rbounds(e, st, r, t, n):
    """bounds of a range argument over a sequence of length n"""
    nm = str(e.p.tys[t].get("n", "")).split("::")[-1] if t is not None else ""
    f = lambda k: e.fieldof(st, r, None, k)
    return {"Range": lambda: (f(0), f(1)), "RangeFrom": lambda: (f(0), n), "RangeTo": lambda: (Int(0), f(0)), "RangeFull": lambda: (Int(0), n),
            "RangeInclusive": lambda: (f(0), addc(f(1), 1)), "RangeToInclusive": lambda: (Int(0), addc(f(0), 1))}.get(nm, lambda: None)()


def drain_range(e, st, a, ty, ctx, old=TAB["Vec::drain"]):
    r = old(e, st, a, ty, ctx)
    if r is not NotImplemented:
        return r
    it = known_items(L(e, st, a[0]))
    b = rbounds(e, st, a[1], ty[1], Int(len(it))) if it is not None else None
    if b is None or b[0].k != "int" or b[1].k != "int":
        return NotImplemented
    lo, hi = b[0].a[0], b[1].a[0]
    if not 0 <= lo <= hi <= len(it):
        e.panic(st, "drain out of range", ctx[4])
        return None
    e.storeref(st, a[0], mk_list(None, (), tuple(it[:lo] + it[hi:])), ctx[4])
    l = mk("list", None, (), tuple(it[lo:hi]))
    return mkiter("val", l, Int(0), list_len(l))


TAB["Vec::drain"] = TAB["VecDeque::drain"] = drain_range
TAB["VecDeque::split_off"] = TAB["Vec::split_off"]
TAB["VecDeque::append"] = TAB["Vec::append"]
TAB["VecDeque::swap"] = TAB["[T]::swap"]
TAB["VecDeque::truncate"] = TAB["Vec::truncate"]
TAB["VecDeque::contains"] = TAB["[T]::contains"]
TAB["VecDeque::make_contiguous"] = TAB["VecDeque::as_slices_"] = lambda e, st, a, ty, ctx: a[0]
TAB["VecDeque::rotate_left"] = TAB["[T]::rotate_left"]
TAB["VecDeque::rotate_right"] = TAB["[T]::rotate_right"]
for _n in ("<VecDeque as From>::from", "<Vec as From>::from", "Vec::leak", "<BinaryHeap as From>::from"):
    def _from(e, st, a, ty, ctx, old=TAB.get(_n), n=_n):
        k = e.p.tys[ty[0]] if ty[0] is not None else {}
        if str(k.get("n", "")).endswith(("vec::Vec", "VecDeque")) or k.get("k") == "array":
            return e.heap(st, a[0]) if n == "Vec::leak" else a[0]
        return old(e, st, a, ty, ctx) if old else NotImplemented
    TAB[_n] = _from
for _n, _o in (("new", "new"), ("with_capacity", "with_capacity")):
    TAB["BinaryHeap::" + _n] = TAB["Vec::" + _o]
for _n in ("push", "len", "is_empty", "clear"):
    TAB["BinaryHeap::" + _n] = TAB["Vec::" + _n]


@h("[T]::concat")
def sl_concat(e, st, a, ty, ctx, old=TAB["[T]::concat"]):
    it = known_items(L(e, st, a[0]))
    t = rty(e, ctx)
    if it is not None and t is not None and str(e.p.tys[t].get("n", "")).endswith("vec::Vec"):
        xs = [known_items(LL(e, st, x)) for x in it]
        if None not in xs:
            return mk("list", None, (), tuple(y for x in xs for y in x))
    return old(e, st, a, ty, ctx)


def has_size(e, st, a, ty, ctx):
    it = L(e, st, a[0])
    if it.k != "iter" or it.a[0].startswith("lines"):
        return NotImplemented
    n = sub(it.a[3], it.a[2])
    t = e.p.tys[rty(e, ctx)]
    return tup(n, enum(e, t["f"][1], "Some", n))


for _n in ("Iter", "IterMut", "IntoIter", "Drain", "Keys", "Values", "ValuesMut", "Windows", "Chunks"):
    TAB["<%s as ExactSizeIterator>::len" % _n] = c_len
    TAB["<%s as Iterator>::size_hint" % _n] = has_size
for _n in ("Windows", "Chunks", "ChunksExact", "RChunks", "Difference", "Union", "Intersection", "ToLowercase", "ToUppercase"):
    TAB["<%s as Iterator>::next" % _n] = it_next
    TAB["<%s as DoubleEndedIterator>::next_back" % _n] = it_next_back


# maps and sets
@h("HashMap::get_key_value", "BTreeMap::get_key_value")
def map_gkv(e, st, a, ty, ctx):
    m, k = L(e, st, a[0]), LL(e, st, a[1])
    return bfork(e, st, map_has(e, st, m, k), ctx, lambda s: some(e, ctx, tup(kref(k), mk("ref", *_mv(e, s, a[0], k)))), lambda s: none(e, ctx))


@h("HashMap::remove_entry", "BTreeMap::remove_entry", "HashSet::take", "BTreeSet::take")
def map_remove_entry(e, st, a, ty, ctx):
    m, k = L(e, st, a[0]), LL(e, st, a[1])
    isset = "Set" in (ctx[1] or ctx[0].t)

    def g(s):
        v = e.map_get_known(s, m, k)
        b, u = e.map_parts(m)
        nu = tuple((x, y) for x, y in u if x is not k)
        e.storeref(s, a[0], mk("map", b, nu if b is None and all(e.eqterm(x, k) is FALSE for x, _ in nu) else nu + ((k, None),)), ctx[4])
        return some(e, ctx, k if isset else tup(k, v))
    return bfork(e, st, map_has(e, st, m, k), ctx, g, lambda s: none(e, ctx))


@h("HashSet::get", "BTreeSet::get")
def set_get(e, st, a, ty, ctx):
    k = LL(e, st, a[1])
    return bfork(e, st, map_has(e, st, L(e, st, a[0]), k), ctx, lambda s: some(e, ctx, kref(k)), lambda s: none(e, ctx))


@h("BTreeMap::first_key_value", "BTreeMap::last_key_value", "BTreeSet::first", "BTreeSet::last", "BTreeMap::pop_first", "BTreeMap::pop_last", "BTreeSet::pop_first", "BTreeSet::pop_last")
def bt_end(e, st, a, ty, ctx):
    m = L(e, st, a[0])
    n = map_len(e, st, m)
    nm = ctx[1] or ctx[0].t
    if n.k != "int":
        return NotImplemented
    if n.a[0] == 0:
        return none(e, ctx)
    k = nth_key(e, st, m, Int(0 if "first" in nm else n.a[0] - 1))
    isset = "Set" in nm
    if "pop_" in nm:
        v = None if isset else e.map_get_known(st, m, k)
        b, u = e.map_parts(m)
        e.storeref(st, a[0], mk("map", None, tuple((x, y) for x, y in u if x is not k)), ctx[4])
        return some(e, ctx, k if isset else tup(k, v))
    return some(e, ctx, kref(k) if isset else tup(kref(k), mk("ref", *_mv(e, st, a[0], k))))


@h("HashMap::retain", "BTreeMap::retain", "HashSet::retain", "BTreeSet::retain")
def map_retain(e, st, a, ty, ctx):
    m = L(e, st, a[0])
    n = map_len(e, st, m)
    if n.k != "int" or n.a[0] > 16:
        return NotImplemented
    isset = "Set" in (ctx[1] or ctx[0].t)
    ks = [nth_key(e, st, m, Int(i)) for i in range(n.a[0])]

    def fold(s, i, acc, v):
        x, y = e.split(s, v)
        return ([(x, acc)] if x is not None else []) + ([(y, acc + (ks[i],))] if y is not None else [])

    def fin(s, acc):
        b, u = e.map_parts(L(e, s, a[0]))
        e.storeref(s, a[0], mk("map", None, tuple((x, y) for x, y in u if not any(x is z for z in acc))), ctx[4])
        return UNIT
    return closure_loop(e, st, len(ks), lambda s, i, acc: [kref(ks[i])] if isset else [kref(ks[i]), mk("ref", *_mv(e, s, a[0], ks[i]))], fold, fin, (), ctx, a[1], ty[1])


# numbers
def ffold(name, *fs):
    old = TAB.get("f64::" + name)

    def f(e, st, a, ty, ctx):
        if all(x.k in ("flt", "int") for x in a):
            import math
            try:
                v = [float(x.a[0]) if x.k == "flt" else x.a[0] for x in a]
                if all(math.isfinite(x) for x in v):
                    r = fs[0](*v)
                    if isinstance(r, float) and math.isfinite(r):
                        return Flt(r)
            except (ValueError, OverflowError):
                pass
        return old(e, st, a, ty, ctx) if old else mk("fop", name, *a)
    TAB["f64::" + name] = f


def _round(x):
    import math
    return math.copysign(float(math.floor(abs(x) + 0.5)), x) if abs(x) < 2 ** 52 else x


def _math():
    import math
    ffold("floor", lambda x: float(math.floor(x)))
    ffold("ceil", lambda x: float(math.ceil(x)))
    ffold("trunc", lambda x: float(math.trunc(x)))
    ffold("round", _round)
    ffold("hypot", lambda x, y: math.hypot(x, y))
    ffold("signum", lambda x: math.copysign(1.0, x))
    ffold("copysign", lambda x, y: math.copysign(x, y))
    ffold("powi", lambda x, n: x ** n if -3 <= n <= 3 and n == int(n) else float("nan"))
    ffold("rem_euclid", lambda x, y: math.fmod(x, y) + (abs(y) if math.fmod(x, y) < 0 else 0.0))


_math()


@h("<u32 as From>::from", "<char as From>::from", "<u64 as From>::from", "<i64 as From>::from", "<usize as From>::from", "<i32 as From>::from")
def num_from(e, st, a, ty, ctx):
    k = e.p.tys[ty[0]]["k"] if ty[0] is not None else ""
    return a[0] if k in ("char", "uint", "int") else NotImplemented


@h("char::from_u32")
def char_from_u32(e, st, a, ty, ctx):
    if a[0].k != "int":
        return NotImplemented
    n = a[0].a[0]
    return some(e, ctx, a[0]) if 0 <= n < 0xD800 or 0xE000 <= n <= 0x10FFFF else none(e, ctx)


@h("char::len_utf8")
def char_len(e, st, a, ty, ctx):
    return utf8len(e, st, a[0])


@h("char::to_lowercase", "char::to_uppercase")
def char_case(e, st, a, ty, ctx):
    if a[0].k != "int" or a[0].a[0] > 127:
        return NotImplemented
    c = chr(a[0].a[0])
    l = mk("list", None, (), (Int(ord(c.lower() if "lower" in (ctx[1] or ctx[0].t) else c.upper())),))
    return mkiter("val", l, Int(0), Int(1))


# text
@h("str::as_bytes", "String::as_bytes", "String::into_bytes")
def s_bytes(e, st, a, ty, ctx):
    c = str_const(LL(e, st, a[0]))
    if c is None:
        return NotImplemented
    l = mk("list", None, (), tuple(Int(x) for x in c.encode()))
    return l if "into" in (ctx[1] or ctx[0].t) else kref(l)


@h("str::get", "str::split_at", "str::is_char_boundary")
def s_sub(e, st, a, ty, ctx):
    s = LL(e, st, a[0])
    nm = (ctx[1] or ctx[0].t).split("::")[-1]
    c = str_const(s)
    if c is None:
        return NotImplemented
    bs = c.encode()
    if nm == "get":
        b = rbounds(e, st, a[1], ty[1], Int(len(bs)))
        if b is None or b[0].k != "int" or b[1].k != "int":
            return NotImplemented
        lo, hi = b[0].a[0], b[1].a[0]
    else:
        if a[1].k != "int":
            return NotImplemented
        lo, hi = 0, a[1].a[0]
    ok = lambda i: i == len(bs) or 0 <= i < len(bs) and bs[i] & 0xC0 != 0x80
    if nm == "is_char_boundary":
        return Bool(ok(hi))
    good = lo <= hi and ok(lo) and ok(hi)
    if nm == "get":
        return some(e, ctx, kref(Lit(bs[lo:hi].decode()))) if good else none(e, ctx)
    if not good:
        e.panic(st, "split_at", ctx[4])
        return None
    return tup(kref(Lit(bs[:hi].decode())), kref(Lit(bs[hi:].decode())))


def at_byte(e, st, s, i):
    """the parts of a text before and after a byte offset; None if not known"""
    if i.k == "int" and i.a[0] == 0:
        return [], list(str_parts(s))
    if i is e.strlen(s):
        return list(str_parts(s)), []
    cs = char_terms(s)
    if cs is None:
        return None
    at = Int(0)
    for k, c in enumerate(cs):
        if at is i:
            return [mk("ch", x) for x in cs[:k]], [mk("ch", x) for x in cs[k:]]
        at = add(at, utf8len(e, st, c))
    return ([mk("ch", x) for x in cs], []) if at is i else None


@h("String::insert", "String::insert_str", "String::truncate", "String::split_off")
def s_edit(e, st, a, ty, ctx):
    s = L(e, st, a[0])
    nm = (ctx[1] or ctx[0].t).split("::")[-1]
    if s.k != "str":
        s = mk_str(list(str_parts(s)))
    q = at_byte(e, st, s, a[1]) if s.k == "str" else None
    if q is None:
        if nm == "truncate" and s.k == "str" and e.decide(st, le(e.strlen(s), a[1])) is True:
            return UNIT
        return NotImplemented
    x, y = q
    if nm == "truncate":
        e.storeref(st, a[0], mk_str(x), ctx[4])
        return UNIT
    if nm == "split_off":
        e.storeref(st, a[0], mk_str(x), ctx[4])
        return mk_str(y)
    m = [mk("ch", a[2])] if nm == "insert" else list(str_parts(LL(e, st, a[2])))
    e.storeref(st, a[0], mk_str(x + m + y), ctx[4])
    return UNIT


@h("String::remove")
def s_remove(e, st, a, ty, ctx):
    s = L(e, st, a[0])
    q = at_byte(e, st, s, a[1]) if s.k == "str" and char_terms(s) is not None else None
    if q is None:
        return NotImplemented
    x, y = q
    cs = char_terms(mk_str(y))
    if not cs:
        e.panic(st, "String::remove", ctx[4])
        return None
    e.storeref(st, a[0], mk_str(x + [mk("ch", c) for c in cs[1:]]), ctx[4])
    return cs[0]


@h("String::retain")
def s_retain(e, st, a, ty, ctx):
    cs = char_terms(L(e, st, a[0]))
    if cs is None or len(cs) > 40:
        return NotImplemented

    def fold(s, i, acc, v):
        x, y = e.split(s, v)
        return ([(x, acc + (cs[i],))] if x is not None else []) + ([(y, acc)] if y is not None else [])

    def fin(s, acc):
        e.storeref(s, a[0], mk_str([mk("ch", c) for c in acc]), ctx[4])
        return UNIT
    return closure_loop(e, st, len(cs), lambda s, i, acc: [cs[i]], fold, fin, (), ctx, a[1], ty[1])


@h("str::split_whitespace")
def s_split_ws(e, st, a, ty, ctx):
    s = LL(e, st, a[0])
    cs = char_terms(s) if s.k == "str" else None
    if cs is None:
        return NotImplemented
    test = is_ws(e, st)
    out, cur = [], []
    for c in cs:
        d = test(c)
        if d is None:
            return NotImplemented
        if d:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(c)
    if cur:
        out.append(cur)
    l = mk("list", None, (), tuple(kref(mk_str([mk("ch", c) for c in x])) for x in out))
    return mkiter("val", l, Int(0), list_len(l))


def closure_pat(name, old):
    """text routines whose pattern is a closure or function on characters, on texts of known characters"""
    def f(e, st, a, ty, ctx):
        t = pointee(e, ty[1]) if len(a) > 1 else None
        if t is None or e.p.tys[t]["k"] not in ("closure", "fndef", "fnptr"):
            return old(e, st, a, ty, ctx) if old else NotImplemented
        s = LL(e, st, a[0])
        cs = char_terms(s) if s.k == "str" else None
        if cs is None or len(cs) > 60:
            return old(e, st, a, ty, ctx) if old else NotImplemented
        txt = lambda x: kref(mk_str([mk("ch", c) for c in x]))
        n = len(cs)
        order = list(range(n))[::-1] if name in ("rfind", "trim_end_matches", "ends_with") else list(range(n))
        if name in ("starts_with", "ends_with"):
            order = order[:1]

        def fold(q, i, acc, v):
            if acc and acc[-1] == "stop":
                return [(q, acc)]
            x, y = e.split(q, v)
            stop_t = name in ("find", "rfind", "contains", "split_once")
            stop_f = name in ("trim_start_matches", "trim_end_matches", "starts_with", "ends_with")
            return ([(x, acc + (1,) + (("stop",) if stop_t else ()))] if x is not None else []) + ([(y, acc + (0,) + (("stop",) if stop_f else ()))] if y is not None else [])

        def fin(q, acc):
            bits = {order[k]: b for k, b in enumerate(x for x in acc if x != "stop")}
            hits = sorted(k for k, b in bits.items() if b)
            if name in ("find", "rfind"):
                if not hits:
                    return none(e, ctx)
                at = Int(0)
                for c in cs[:hits[0]]:
                    at = add(at, utf8len(e, q, c))
                return some(e, ctx, at)
            if name == "split_once":
                return some(e, ctx, tup(txt(cs[:hits[0]]), txt(cs[hits[0] + 1:]))) if hits else none(e, ctx)
            if name in ("contains", "starts_with", "ends_with"):
                return Bool(bool(hits))
            if name.startswith("trim"):
                i, j = 0, n
                while name != "trim_end_matches" and i < j and bits.get(i):
                    i += 1
                while name != "trim_start_matches" and i < j and bits.get(j - 1):
                    j -= 1
                return txt(cs[i:j])
            if name == "matches":
                v = [txt([cs[k]]) for k in hits]
            else:
                ps, at = [], 0
                for k in hits:
                    ps.append(cs[at:k + (1 if name == "split_inclusive" else 0)])
                    at = k + 1
                ps.append(cs[at:])
                if name in ("split_terminator", "split_inclusive") and not ps[-1]:
                    ps.pop()
                v = [txt(x) for x in ps]
            l = mk("list", None, (), tuple(v))
            return mkiter("val", l, Int(0), list_len(l))
        return closure_loop(e, st, len(order), lambda q, i, acc: [cs[order[i]]], fold, fin, (), ctx, a[1], ty[1])
    return f


for _n in ("find", "rfind", "contains", "starts_with", "ends_with", "split", "split_once", "split_inclusive", "split_terminator", "matches", "trim_matches", "trim_start_matches",
           "trim_end_matches"):
    TAB["str::" + _n] = closure_pat(_n, TAB.get("str::" + _n))


# shared and interior cells are transparent
@h("RefCell::new", "Cell::new", "RefCell::into_inner", "Cell::into_inner", "RefCell::borrow", "RefCell::borrow_mut", "RefCell::get_mut", "Cell::get_mut", "Cell::as_ptr_")
def cell_id(e, st, a, ty, ctx):
    return a[0]


@h("<Ref as Deref>::deref", "<RefMut as Deref>::deref", "<RefMut as DerefMut>::deref_mut", "<Rc as Deref>::deref", "<Rc as AsRef>::as_ref", "<Rc as Clone>::clone", "Rc::clone", "<Rc as Borrow>::borrow")
def cell_deref(e, st, a, ty, ctx):
    return L(e, st, a[0])


@h("Cell::get")
def cell_get(e, st, a, ty, ctx):
    return L(e, st, a[0])


@h("Cell::set", "Cell::replace", "RefCell::replace")
def cell_set(e, st, a, ty, ctx):
    v = L(e, st, a[0])
    e.storeref(st, a[0], a[1], ctx[4])
    return UNIT if (ctx[1] or ctx[0].t).endswith("set") else v


@h("Rc::new")
def rc_new(e, st, a, ty, ctx):
    return e.heap(st, a[0])


@h("Rc::ptr_eq")
def rc_ptr_eq(e, st, a, ty, ctx):
    x, y = L(e, st, a[0]), L(e, st, a[1])
    return TRUE if x is y else FALSE if x.k == "ref" and y.k == "ref" else NotImplemented


@h("<Cow as Deref>::deref", "Cow::into_owned", "<Cow as AsRef>::as_ref")
def cow(e, st, a, ty, ctx):
    own = "into_owned" in (ctx[1] or ctx[0].t)
    v = a[0] if own else LL(e, st, a[0])
    if v.k != "agg" or len(v.a[2]) != 1:
        return NotImplemented
    x = v.a[2][0]
    if own:
        return LL(e, st, x)
    return x if x.k == "ref" else kref(x)


@h("<HashMap as From>::from", "<BTreeMap as From>::from", "<HashSet as From>::from", "<BTreeSet as From>::from")
def map_from(e, st, a, ty, ctx):
    it = known_items(a[0])
    if it is None:
        return NotImplemented
    isset = "Set" in ctx[0].t.split(" as ")[0]
    m = mk("map", None, ())
    for x in it:
        if not isset and x.k != "agg":
            return NotImplemented
        m = e.map_set(st, m, LL(e, st, x) if isset else LL(e, st, x.a[2][0]), UNIT if isset else x.a[2][1])
    return m


@h("<Vec as Extend>::extend_one", "<VecDeque as Extend>::extend_one")
def extend_one(e, st, a, ty, ctx):
    e.storeref(st, a[0], e.list_push(L(e, st, a[0]), a[1]), ctx[4])
    return UNIT


def cmp_lists(e, st, a, ty, ctx):
    """order of two concrete values"""
    x, y = ckey(dsnap(e, st, LL(e, st, a[0]))), ckey(dsnap(e, st, LL(e, st, a[1])))
    if x is None or y is None:
        return NotImplemented
    nm = (ctx[1] or ctx[0].t).split("::")[-1]
    if nm in ("lt", "le", "gt", "ge"):
        return Bool({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[nm])
    t = rty(e, ctx)
    o = "Less" if x < y else "Equal" if x == y else "Greater"
    if nm == "cmp":
        return enum(e, t, o)
    return some(e, ctx, enum(e, e.p.tys[t]["a"][0], o))


for _t in ("Vec", "[T]", "str", "String", "()", "bool", "&A"):
    for _o in ("<%s as Ord>::cmp", "<%s as PartialOrd>::partial_cmp", "<%s as PartialOrd>::lt", "<%s as PartialOrd>::le", "<%s as PartialOrd>::gt", "<%s as PartialOrd>::ge"):
        if _o % _t not in TAB:
            TAB[_o % _t] = cmp_lists


def install(eng):
    eng.norm = norm
    eng.allow = ALLOW
    eng.itab = TAB
