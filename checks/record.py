"""R01: record labels are parsed without loss; K01: colours"""
import itertools
import random
from terms import *
from core import *
from sym import *
from common import *
from build import *

SPECIAL = "{}|<>"
BLANK = " \n\t"


def generic_char(ck, e, st, name, no):
    from intrin import ASC
    c = mk("in", name)
    c.ty = ck.prog().ty_by_d.get("char")
    bad = tuple(sorted([(ord(x), ord(x)) for x in no] + list(ASC["is_whitespace"])))
    e.restrict(st, c, iv_and(iv_not(bad), ((33, 0xD7FF), (0xE000, 0x10FFFF))))
    return c


def ref_record(pat, chars):
    """(tree, balanced): tree = ("T", text chars, port chars or None) | ("A", [...])"""
    pos = [0]
    bal = [True]

    def rec(depth):
        items, cur = [], []

        def flush():
            c = list(cur)
            while c and pat[c[0]] in BLANK:
                c.pop(0)
            while c and pat[c[-1]] in BLANK:
                c.pop()
            cur.clear()
            if not c:
                return
            port = None
            if pat[c[0]] == "<":
                k = [i for i, x in enumerate(c) if pat[x] == ">"]
                if k:
                    port = [chars[x] for x in c[1:k[0]]]
                    c = c[k[0] + 1:]
                    while c and pat[c[0]] in BLANK:
                        c.pop(0)
            items.append(("T", [chars[x] for x in c], port))
        while pos[0] < len(pat):
            i = pos[0]
            pos[0] += 1
            if pat[i] == "{":
                flush()
                items.append(rec(depth + 1))
            elif pat[i] == "|":
                flush()
            elif pat[i] == "}":
                if depth == 0:
                    bal[0] = False
                flush()
                return ("A", items) if items else ("T", [], None)
            else:
                cur.append(i)
        if depth:
            bal[0] = False
        flush()
        return ("A", items) if items else ("T", [], None)
    return rec(0), bal[0]


def show_tree(t):
    s = lambda l: "".join(chr(c.a[0]) if c.k == "int" else show(c) for c in l)
    if t[0] == "T":
        return "text(%s%s)" % ("<%s>" % s(t[2]) if t[2] is not None else "", s(t[1]))
    return "[%s]" % ", ".join(show_tree(x) for x in t[1])


def same_tree(T, p, v, t):
    v0 = v
    while v.k in ("ref", "kref"):
        v = p.e.loadref(p.st, v)
    if v.k != "agg" or v.a[0] < 0:
        return None
    n = T.variant_name(v)
    if t[0] == "A":
        if n != "Array":
            return False
        b, u, items = list_parts(v.a[2][0])
        if b is not None or u:
            return None
        if len(items) != len(t[1]):
            return False
        return all3(same_tree(T, p, x, y) for x, y in zip(items, t[1]))
    if n != "Text":
        return False
    r = [same(p.e, p.st, v.a[2][0], mk_str([mk("ch", c) for c in t[1]]))]
    o = v.a[2][1]
    if o.k != "agg":
        return None
    if (o.a[1] == 1) != (t[2] is not None):
        return False
    if t[2] is not None:
        r.append(same(p.e, p.st, o.a[2][0], mk_str([mk("ch", c) for c in t[2]])))
    return all3(r)


def long_labels(count, seed):
    """labels with many fields, deep nests, blanks and backslashes inside the texts"""
    r = random.Random(seed)
    out = ["|".join(["?"] * n) for n in (6, 9, 14, 33)] + ["|".join(["<?>?"] * n) for n in (5, 12)] + ["{" * n + "?" + "}" * n for n in (4, 9, 17, 30)]
    out += ["{?|" * n + "?" + "}" * n for n in (3, 8, 16)] + ["{?}" * n for n in (5, 9, 17)] + ["?" * n for n in (20, 70, 140)] + ["<" + "?" * n + ">?" for n in (9, 40)]
    out += ["?\\?", "\\?", "?\\", "\\|?", "?\\|?", "\\{?\\}", "?\n?", "? \t ?", "?\n|\t?", "<?>\n?", "\n<?> ?", "<?\n>?", "{\n?\n|?}", "\n\n", "|\n|"]

    def field():
        t = "".join(r.choice(("?", "?", "??", " ", "\n", "\\", "???????", ">")) for _ in range(r.choice((0, 1, 1, 2, 3))))
        return ("<%s>" % r.choice(("", "?", "??", "? ?", "??????")) if r.random() < .3 else "") + t

    def rec(depth):
        n = r.choice((1, 2, 2, 3, 5, 8) if depth < 2 else (1, 2, 3))
        return "|".join(field() if depth > 4 or r.random() < .65 else r.choice(("", " ")) + "{" + rec(depth + 1) + "}" + r.choice(("", " ")) for _ in range(n))
    for _ in range(count):
        out.append(rec(0)[:150])
    return out


def run_record(ck):
    f = ck.fn("layout::gv::record::parse_record_string")
    T = Types(ck)
    T.ty("shapes::RecordDef")
    pats = [""]
    for n in (1, 2, 3, 4):
        pats += ["".join(x) for x in itertools.product("{}|<>? ", repeat=n)]
    n5 = ["".join(x) for x in itertools.product("{}|<>? ", repeat=5)]
    n5 = [x for x in n5 if x.count("{") >= 1 and x.count("{") == x.count("}") or "<" in x and ">" in x]
    pats += n5 if ck.thorough else n5[::3]
    pats += ["<?>?|<?>?", "{?|?}|?", "?|{?|{?|?}|?}|?", "{{?}}", "<??> ?? |{ <?> ? | ?}", "? ?|?  ?", "{<?>?|<?>?}|{<?>?}", "<?>", "<?>|<?>", "? <?> ?", "<?<?>?>?", "{|}|?", "{}", "|?|", "?{?}?", "{?}{?}",
             "{{?|?}|{?|?}}|<?>?", "? ? ?", "<? ?> ?", "< ? >?"]
    if ck.thorough:
        pats += ["".join(x) for x in itertools.product("{}|<>?", repeat=6) if x.count("{") == x.count("}") and (x.count("{") or x.count("<") == 1 and x.count(">") == 1)]

    pats += long_labels(600 if ck.thorough else 150, 3)

    def one(ck, pat):
        r = Runner(ck, f, max_time=10, max_rec=40, unroll=300)
        chars = [generic_char(ck, r.e, r.st, "c%d" % i, SPECIAL) if c == "?" else Int(ord(c)) for i, c in enumerate(pat)]
        s = mk_str([mk("ch", c) for c in chars])
        tree, balanced = ref_record(pat, chars)
        paths = r.go([kref(s)])
        site = "gv/record.rs parse_record_string"
        for st, what, line in r.panics:
            if st.mon.get("opaque"):
                ck.undecided("panic", "%s at %s for %r" % (what, line, pat), site)
            else:
                ck.violation("panic", "parsing the record label `%s` panics (%s at %s)" % (pat, what, line), line, trace_of(ck.prog(), st))
        if r.cut:
            ck.undecided("cut", "not all paths followed for %r" % pat, site)
        if not r.panics and paths:
            ck.ok("no panic")
        if not balanced:
            return
        for p in paths:
            v = same_tree(T, p, p.ret, tree)
            if v is True:
                ck.ok("fields", "%r -> %s" % (pat, show_tree(tree)))
            elif v is False and not p.opaque:
                ck.violation("fields", "the record label `%s` does not give %s" % (pat, show_tree(tree)), site, trace_of(ck.prog(), p.st))
            else:
                ck.undecided("fields", "label %r" % pat, site)
    parallel(ck, pats, one)
    ck.extra["label patterns"] = len(pats)
    b = ck.fn("layout::gv::record::record_builder")
    # the builder hands the parsed record on unchanged
    r = Runner(ck, b, max_time=10)
    s = inp("label", T.field_ty(T.ty("ast::NodeId"), "name"))

    def parse(e, st, a, ty, ctx):
        t = mk("app", "parsed", st and e.loadref(st, a[0]))
        t.ty = T.ty("shapes::RecordDef")
        return t
    r.e.handlers[f.n] = parse
    for p in r.go([kref(s)]):
        v = p.ret
        if v.k == "agg" and v.a[0] >= 0 and T.variant_name(v) == "Record" and v.a[2][0].k == "app" and v.a[2][0].a[0] == "parsed":
            if v.a[2][0].a[1] is s:
                ck.ok("record shape")
            else:
                ck.undecided("record shape", show(v)[:200])
        else:
            ck.undecided("record shape", show(v)[:200])


# ------------------------------------------------------------------ K01
CLASSES = {"d": (48, 57, 48), "l": (97, 102, 87), "u": (65, 70, 55)}


def table():
    import os
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "css_colors.txt")
    return [(l.split()[0], int(l.split()[1], 16)) for l in open(p) if l.strip()]


def rgba_of(T, e, st, v):
    """the u32 of a Color value"""
    while v.k in ("ref", "kref"):
        v = e.loadref(st, v)
    if v.k == "agg" and len(v.a[2]) == 1:
        return v.a[2][0]
    return None


def run_color(ck):
    f = ck.fn("layout::core::color::Color::from_name")
    fast = ck.fn("layout::core::color::Color::fast")
    web = ck.fn("layout::core::color::Color::to_web_color")
    T = Types(ck)
    C = T.ty("color::Color")
    site = "core/color.rs"
    names = table()

    def judge(what, r, msg, p=None):
        if r is True:
            ck.ok(what, msg)
        elif r is False and not (p is not None and p.opaque):
            ck.violation(what, msg, site, trace_of(ck.prog(), p.st) if p is not None else None)
        else:
            ck.undecided(what, msg, site)

    def lookup(fn, arg, setup=None, time=20):
        r = Runner(ck, fn, max_time=time, unroll=400)
        a = arg(r) if callable(arg) else arg
        ps = r.go([kref(a)])
        for st, what, line in r.panics:
            judge("panic", False, "looking up a colour panics (%s at %s)" % (what, line), Path(r.e, st, None))
        return ps, r

    def value(p, v, opt):
        """colour number, "none", or None when not known"""
        if opt:
            if v.k != "agg":
                return None
            if v.a[1] == 0:
                return "none"
            v = v.a[2][0]
        return rgba_of(T, p.e, p.st, v)

    def expect(kind, arg, want, text):
        for fn, opt in ((f, True), (fast, False)):
            ps, r = lookup(fn, arg)
            if r.cut or not ps:
                ck.undecided(kind, "not all paths followed for %s" % text, site)
            for p in ps:
                got = value(p, p.ret, opt)
                w = want(p) if callable(want) else want
                if w is None and not opt:
                    w = Int(0xff)
                if got is None:
                    ok = None
                elif w is None or got == "none":
                    ok = got == "none" and w is None
                else:
                    ok = same(p.e, p.st, got, w)
                judge(kind, ok, "%s gives %s instead of %s" % (text, got if isinstance(got, str) else show(got)[:200] if got is not None else "?", show(w)[:200] if w is not None else "no colour"), p)
    for n, rgb in names:
        expect("names", Lit(n), Int((rgb << 8) + 0xff), n)
    for n in ("", "Red", "reds", "re", "#", "#xyzxyz", "0x112233", "112233", "none", "transparent", "light gray", "#11 233", "#-12345"):
        expect("unknown names", Lit(n), None, repr(n))

    # a name that is none of the table and no web colour
    def other(r):
        s = inp("name", T.field_ty(T.ty("ast::NodeId"), "name"))
        for n, _ in names:
            r.e.assume(r.st, r.e.streq(s, Lit(n)), False)
        r.e.assume(r.st, mk("app", "starts_with?bool", s, Int(35)), False)
        r.st.mon.pop("opaque", None)
        return s
    expect("unknown names", other, None, "a name outside the table")

    # web colours, over every class of hex digit
    pats = []
    for n in (6, 8):
        pats += ["".join(x) for x in ({c * n for c in "dlu"})]
        for i in range(n):
            for c, o in (("l", "d"), ("u", "d"), ("d", "l"), ("u", "l"), ("l", "u")):
                pats.append(o * i + c + o * (n - 1 - i))
        pats += ["dlu" * 3][:0] + [("dlu" * 3)[:n], ("uld" * 3)[:n]]
    if ck.thorough:
        pats += ["".join(x) for x in itertools.product("dlu", repeat=6)]
    seen = set()
    for pat in pats:
        if pat in seen:
            continue
        seen.add(pat)

        def arg(r, pat=pat):
            cs = []
            for i, k in enumerate(pat):
                c = mk("in", "h%d%s" % (i, k))
                c.ty = ck.prog().ty_by_d.get("char")
                r.e.restrict(r.st, c, ((CLASSES[k][0], CLASSES[k][1]),))
                cs.append(c)
            return mk_str([mk("lit", "#")] + [mk("ch", c) for c in cs])

        def want(p, pat=pat):
            v = Int(0)
            for i, k in enumerate(pat):
                c = mk("in", "h%d%s" % (i, k))
                v = add(mulc(v, 16), addc(c, -CLASSES[k][2]))
            return v if len(pat) == 8 else addc(mulc(v, 256), 0xff)
        expect("web colours", arg, want, "#" + pat)

    # printing: 8 lower-case hex digits of the number
    r = Runner(ck, web, max_time=10)
    c = inp("col", C)
    for p in r.go([kref(c)]):
        s = p.ret
        parts = str_parts(s) if s.k == "str" else ()
        ok = None
        num = mk("fld", c, None, 0)
        if len(parts) == 2 and parts[0].k == "lit" and parts[1].k == "S":
            ok = parts[0].a[0] == "#" and same_fmt(parts[1].a[0], num)
        judge("printed", ok, "to_web_color prints %s" % show(s)[:200], p)
    ck.extra["names"] = len(names)


def same_fmt(x, num):
    """eight lower-case hex digits of the number"""
    while x.k in ("ref", "kref"):
        x = x.a[0]
    if x.k == "S":
        x = x.a[0]
    if x.k != "fmtv":
        return None
    if x.a[1] is not num:
        return False if free(x.a[1]) and x.a[1].k != "op" else None
    sp = dict((k, v) for k, v in x.a[2]) if all(isinstance(z, tuple) and len(z) == 2 for z in x.a[2]) else None
    if sp is None:
        return None
    zero = bool(sp.get("flags", 0) & 1 << 24)
    return x.a[0] == "lower_hex" and sp.get("w") == 8 and zero and not sp.get("flags", 0) & 1 << 23
