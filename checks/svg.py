"""SVG backend: every drawing call appends well-formed, escaped, complete markup; the final document holds all of it."""
from common import *
from sym import *
import re
import xmlp

WN = "backends::svg::SVGWriter"
TR = "layout::core::format::RenderBackend"


class Case:
    def __init__(self, m, label, path, args, self_, new):
        self.m, self.label, self.p, self.args, self.self_, self.new = m, label, path, args, self_, new


def writer(ck):
    t = ck.prog().adt(WN)
    if len(t) != 1:
        raise Missing("type SVGWriter")
    return t[0]


def fields(ck):
    W = writer(ck)
    p = ck.prog()
    return [(i, n, p.tys[t]) for i, (n, t) in enumerate(p.tys[W]["v"][0]["f"])]


def method(ck, m):
    return ck.fn("<layout::%s as %s>::%s" % (WN, TR, m))


SPECIAL = "&<>\"'"


def char_case(st, e, name, c):
    """a character term: one of the special ones, or a generic one that is none of them"""
    if c != "?":
        return Int(ord(c))
    t = inp(name)
    bad = tuple(sorted((ord(x), ord(x)) for x in SPECIAL))
    e.restrict(st, t, iv_and(iv_not(bad), ((33, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF))))
    return t


def text_of(st, e, pat):
    """pat: string over SPECIAL, '?' (generic character), newline"""
    parts = []
    for i, c in enumerate(pat):
        parts.append(mk("ch", char_case(st, e, "c%d" % i, c)) if c == "?" else mk("lit", c))
    return mk_str(parts)


def texts(pat_multi):
    out = ["", "?"] + list(SPECIAL) + ["??", "?&", "&?", "&<", "<&", "&amp;", "?\"'>"]
    if pat_multi:
        out += ["?\n?", "\n", "?\n", "\n?", "&\n<", "?\n\n?", "?\n?\n?"]
    return out


def run_method(ck, m, label, build):
    """build(runner) -> dict of arguments after self"""
    p = ck.prog()
    f = method(ck, m)
    W = writer(ck)
    r = Runner(ck, f, max_time=10)
    r.e.keep_fcmp = True
    if getattr(ck, "on_overflow", None):
        r.e.on_assert = lambda e, st, fr, t: ck.on_overflow(m, label, e, st, fr, t)
    self_ = inp("self", W)
    sr = r.cell("self", self_)
    kw = build(r)
    args = [sr]
    for i in range(1, f.nargs):
        args.append(kw["%d" % i])
    out = []

    def onp(pp):
        out.append(Case(m, label, pp, kw, self_, pp.val("self")))
        if len(out) > 5000:
            raise Budget("paths")
    r.go(args, onp)
    if r.cut:
        ck.undecided("cut:%s" % m, "not all paths of %s followed" % m)
    return out, r


def fargs(ck, m, start=1):
    """symbolic arguments by position, typed"""
    f = method(ck, m)
    p = ck.prog()
    kw = {}
    for i in range(start, f.nargs):
        t = locs(f)[i + 1][0]
        x = inp("%s.%s" % (m, locs(f)[i + 1][1] or i), t)
        kw["%d" % i] = x
    return kw


def path_list(ck, n):
    f = method(ck, "draw_arrow")
    p = ck.prog()
    t = p.tys[locs(f)[2][0]]
    P = p.adt("geometry::Point")[0]
    items = []
    for i in range(n):
        a = inp("p%d" % i, P)
        b = inp("q%d" % i, P)
        items.append(tup(a, b))
    return mk("list", None, (), tuple(items)), items


def plain(ck, kw):
    """no dashes, heads, properties: one path instead of sixteen"""
    p = ck.prog()
    for k, x in kw.items():
        if isinstance(x, T) and x.k == "in" and x.ty is not None:
            t = p.tys[x.ty]
            if t["k"] == "bool":
                kw[k] = FALSE
            elif t["k"] == "tuple":
                kw[k] = tup(FALSE, TRUE)
            elif t["k"] == "adt" and t["n"].endswith("Option"):
                kw[k] = agg(x.ty, 0, [])


def collect(ck):
    """all cases, and the panics met"""
    if hasattr(ck, "svg_cases"):
        return ck.svg_cases
    cases, panics = ck.svg_cases = [], []
    for m in ("draw_rect", "draw_circle", "draw_line", "create_clip"):
        out, r = run_method(ck, m, "", lambda r, m=m: fargs(ck, m))
        cases += out
        panics += [(m, "", x) for x in r.panics]
    for t in texts(True):
        def b(r, t=t):
            kw = fargs(ck, "draw_text")
            kw["2"] = kref(text_of(r.st, r.e, t))
            kw["pat"] = t
            return kw
        out, r = run_method(ck, "draw_text", t, b)
        cases += out
        panics += [("draw_text", t, x) for x in r.panics]
    todo = [(n, "?") for n in (2, 3, 4)] + [(2, t) for t in texts(False)]
    for n, t in todo:
        def b(r, n=n, t=t):
            kw = fargs(ck, "draw_arrow")
            l, items = path_list(ck, n)
            kw["1"] = kref(l)
            kw["6"] = kref(text_of(r.st, r.e, t))
            kw["path"] = items
            kw["pat"] = t
            if (n, t) != (2, "?"):
                plain(ck, kw)
            return kw
        out, r = run_method(ck, "draw_arrow", "%d points, %r" % (n, t), b)
        cases += out
        panics += [("draw_arrow", "%d points, %r" % (n, t), x) for x in r.panics]
    return cases, panics


def finalize(ck, self_=None):
    f = ck.fn("layout::%s::finalize" % WN)
    r = Runner(ck, f, max_time=20, unroll=2)
    if self_ is None:
        self_ = inp("self", writer(ck))
    else:
        r = Runner(ck, f, max_time=40, unroll=2000)
    sr = r.cell("self", self_)
    return self_, r.go([sr]), r


# ------------------------------------------------------------------ classification of the holes
def is_num_ty(p, t):
    return t is not None and p.tys[t]["k"] in ("int", "uint", "float", "bool")


def fmt_of(x):
    """(kind, value, width, zero-padded, precision) of a formatted value"""
    if x.k == "S":
        x = x.a[0]
    if x.k != "fmtv":
        return None
    sp = dict(x.a[2]) if x.a[2] else {}
    fl = sp.get("flags", 0)
    return x.a[0], x.a[1], sp.get("w"), bool(fl >> 24 & 1), sp.get("p", sp.get("prec"))


def prop_arg(case, ck):
    """the argument that carries raw attributes"""
    p = ck.prog()
    for k, v in case.args.items():
        if isinstance(v, T) and v.k == "in" and v.ty is not None:
            t = p.tys[v.ty]
            if t["k"] == "adt" and t["n"].endswith("option::Option") and "String" in t["d"]:
                return v
    return None


def numeric_term(ck, case, t):
    """a formatted term that can only print digits, sign, point, letters"""
    p = ck.prog()
    if t.k in ("int", "lin", "flt", "fop", "len", "op", "strlen"):
        return True
    if t.ty is not None and is_num_ty(p, t.ty):
        return True
    # a field path of a typed argument or of the writer
    ty = path_type(p, t)
    if ty is not None:
        return is_num_ty(p, ty)
    return None


def path_type(p, t):
    if t.k == "in":
        return t.ty
    if t.k == "fld":
        b = path_type(p, t.a[0])
        if b is None:
            return None
        d = p.tys[b]
        if d["k"] == "adt":
            try:
                return d["v"][t.a[1] or 0]["f"][t.a[2]][1]
            except (IndexError, KeyError):
                return None
        return None
    if t.k == "*":
        b = path_type(p, t.a[0])
        return p.tys[b].get("e") if b is not None and p.tys[b]["k"] in ("ref", "ptr") else None
    return t.ty


def mk_kind(ck, case, self_):
    pa = prop_arg(case, ck) if case is not None else None
    payload = mk("fld", pa, 1, 0) if pa is not None else None
    st, e = (case.p.st, case.p.e) if case is not None else (None, None)
    p = ck.prog()

    def kind(h):
        if h.k == "ch":
            c = h.a[0]
            if c.k == "int":
                return "raw" if chr(c.a[0]) in "<&\"'" else "esc"
            ok = all(e.decide(st, eq(c, Int(ord(x)))) is False for x in "<&\"'")
            return "esc" if ok else None
        if h.k != "S":
            return None
        x = h.a[0]
        f = fmt_of(x)
        if f:
            n = numeric_term(ck, case, f[1])
            return "num" if n else None
        if payload is not None and x is payload:
            return "attrs"
        if x.k == "fld" and x.a[0].k == "mget":
            return "num"
        if x.k == "fld" and x.a[0] is self_ or x.k == "elem" and x.a[0].k == "fld" and x.a[0].a[0] is self_:
            return "xml"
        return None
    return kind


# ------------------------------------------------------------------ what a call adds to the writer
def additions(ck, case):
    """[(field index, where, parts)] : markup appended by the call; raises Und when the change is not an append"""
    out = []
    p = ck.prog()
    if case.new is case.self_:
        return out
    if case.new.k != "agg":
        raise xmlp.Unknown("writer state %s" % show(case.new)[:60])
    for i, n, t in fields(ck):
        old = mk("fld", case.self_, None, i)
        new = case.new.a[2][i]
        if new is old:
            continue
        if t["k"] == "adt" and t["n"].endswith("string::String"):
            ps = str_parts(new)
            if not ps or ps[0] is not mk("S", old):
                if any(q is mk("S", old) for q in ps) or not all(q.k in ("lit", "ch") or fmt_of(q) for q in ps):
                    raise xmlp.Unknown("field %s is not appended to: %s" % (n, show(new)[:60]))
                raise xmlp.Bad("earlier content of %s is discarded" % n)
            out.append((i, "content", ps[1:], None))
        elif t["k"] == "adt" and t["n"].endswith("vec::Vec") and "String" in t["d"]:
            b, u, it = list_parts(new)
            if b is not old or u:
                raise xmlp.Unknown("field %s is not appended to: %s" % (n, show(new)[:60]))
            for x in it:
                out.append((i, "defs", str_parts(x), None))
        elif t["k"] == "adt" and ("BTreeMap" in t["n"] or "HashMap" in t["n"]):
            b, items = case.p.e.map_parts(new)
            for k, v in items:
                out.append((i, "map", v, k))
    return out


def body(ck, case):
    """parsed markup that the call appends: root Nodes by kind"""
    k = mk_kind(ck, case, case.self_)
    nodes = []
    for i, where, ps, key in additions(ck, case):
        if where in ("content", "defs"):
            nodes.append((i, where, xmlp.parse(ps, k)))
    return nodes


def name_case(c):
    return "%s(%s)" % (c.m, c.label) if c.label else c.m


def each(ck, judge):
    """run a judge on every case; Bad -> violation, Unknown -> undecided"""
    cases, panics = collect(ck)
    for m, l, (st, what, site) in panics:
        ck.violation("panic:%s:%s" % (m, what), "%s(%s) panics: %s" % (m, l, what), site)
    seen = {}
    for c in cases:
        site = "%s" % ck.prog().line(method(ck, c.m).span)
        try:
            judge(ck, c, site)
            seen[c.m] = seen.get(c.m, 0) + 1
        except xmlp.Bad as b:
            if c.p.opaque is not None:
                ck.undecided("opaque:%s" % c.m, "%s: %s, on a path that depends on %s" % (name_case(c), b, show(c.p.opaque)[:80]), site)
                continue
            ck.violation("%s:%s" % (c.m, str(b)[:60]), "%s: %s" % (name_case(c), b), site, trace_of(ck.prog(), c.p.st))
        except xmlp.Unknown as u:
            ck.undecided("%s:%s" % (c.m, str(u)[:60]), "%s: %s" % (name_case(c), u), site)
    ck.extra["paths judged"] = seen
    return cases


# ------------------------------------------------------------------ S01: escaping and text fidelity
ENT = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'"}


def decode(parts, strict=True):
    """character terms of escaped text"""
    out = []
    s = []
    for q in parts:
        if isinstance(q, str):
            s += list(q)
        else:
            s.append(q)
    i = 0
    while i < len(s):
        c = s[i]
        if not isinstance(c, str):
            if c.k != "ch":
                raise xmlp.Unknown("text %s" % show(c)[:60])
            out.append(c.a[0])
        elif c == "&":
            j = i + 1
            while j < len(s) and s[j] != ";":
                if not isinstance(s[j], str):
                    raise xmlp.Bad("stray &")
                j += 1
            if j >= len(s):
                raise xmlp.Bad("stray &")
            n = "".join(s[i + 1:j])
            if n in ENT:
                out.append(Int(ord(ENT[n])))
            elif n.startswith("#x") or n.startswith("#X"):
                out.append(Int(int(n[2:], 16)))
            elif n.startswith("#") and n[1:].isdigit():
                out.append(Int(int(n[1:])))
            else:
                raise xmlp.Bad("unknown entity &%s;" % n)
            i = j
        else:
            out.append(Int(ord(c)))
        i += 1
    return out


def chars_of_pat(c):
    return [inp("c%d" % i) if x == "?" else Int(ord(x)) for i, x in enumerate(c)]


def same_chars(p, a, b):
    if len(a) != len(b):
        return False
    return all3(True if x is y else p.decide(eq(x, y)) for x, y in zip(a, b))


def pat_of(c):
    return c.args["pat"]


def j_text(ck, c, site):
    if c.m not in ("draw_text", "draw_arrow"):
        return
    ns = body(ck, c)
    pat = pat_of(c)
    if c.m == "draw_text":
        tx = [n for _, w, r in ns if w == "content" for n in r.find("text")]
        if len(tx) != 1:
            raise xmlp.Bad("%d text elements are drawn for one label" % len(tx))
        sp = tx[0].find("tspan")
        lines = pat.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        got = [decode([q for q in s.texts()]) for s in sp]
        k = 0
        want = []
        for l in pat.split("\n"):
            want.append([inp("c%d" % (k + i)) if x == "?" else Int(ord(x)) for i, x in enumerate(l)])
            k += len(l) + 1
        if pat == "" or pat.endswith("\n"):
            want.pop()
        outside = decode([q for q in tx[0].kids if not isinstance(q, xmlp.Node)])
        if any(x.k != "int" or not chr(x.a[0]).isspace() for x in outside):
            if sp:
                raise xmlp.Bad("text outside of the lines")
            raise xmlp.Unknown("text without lines")
        for l in (got, want):
            while l and not l[-1]:
                l.pop()
        if len(got) != len(want):
            raise xmlp.Bad("%d lines of text are drawn as %d" % (len(want), len(got)))
        for a, b in zip(got, want):
            r = same_chars(c.p, a, b)
            if r is False:
                raise xmlp.Bad("text %s is drawn as %s" % (show(tuple(b)), show(tuple(a))))
            if r is None:
                raise xmlp.Unknown("text not decided")
    else:
        tp = [n for _, w, r in ns if w == "content" for n in r.find("text")]
        if len(tp) != 1:
            if pat == "":
                return
            raise xmlp.Bad("%d text elements are drawn for one edge label" % len(tp))
        got = decode(tp[0].texts())
        want = [inp("c%d" % i) if x == "?" else Int(ord(x)) for i, x in enumerate(pat)]
        r = same_chars(c.p, got, want)
        if r is False:
            raise xmlp.Bad("edge label %s is drawn as %s" % (show(tuple(want)), show(tuple(got))))
        if r is None:
            raise xmlp.Unknown("edge label not decided")
    ck.ok("label characters survive (%s)" % c.m, repr(pat))


def escapers(ck):
    """local functions (&str) -> String reachable from the drawing calls"""
    p = ck.prog()
    out = []
    for f in p.fns:
        if f.local and f.raw and f.nargs == 1 and f.n.startswith("layout::backends::"):
            ls = locs(f)
            t0, t1 = p.tys[ls[0][0]], p.tys[ls[1][0]]
            if t0["d"].endswith("String") and t1["d"].replace("'static ", "").endswith("str") and t1["k"] == "ref":
                out.append(f)
    return out


def escape_loop(ck):
    """the escaping function as a character transducer: lock-step to a fixpoint over every text"""
    for f in escapers(ck):
        src = inp("src")
        chars = mk("chars", src)
        r = Runner(ck, f, max_time=10, join=True)
        e = r.e
        bad = []

        def access(e_, st, base, i, sp):
            b, u, it = list_parts(base)
            if b is not chars:
                return [st]
            if e_.decide(st, eq(i, st.mon["pos"])) is not True:
                st.mon["lost"] = TRUE
                return [st]
            c = e_.base_get(chars, i)
            st.mon["pos"] = addc(i, 1)
            out = []
            for x, n in [("&", "amp"), ("<", "lt"), (">", "gt"), ('"', "quot"), ("'", "apos"), (None, None)]:
                s = st.copy()
                iv = ((ord(x), ord(x)),) if x else iv_and(iv_not(tuple(sorted((ord(y), ord(y)) for y in SPECIAL))), ((0, 0x10FFFF),))
                if e_.restrict(s, c, iv):
                    s.mon["exp"] = mk_str(list(str_parts(s.mon["exp"])) + [mk("lit", "&%s;" % n) if x else mk("ch", c)])
                    e_.forked(s)
                    out.append(s)
            return out
        e.on_access.append(access)
        r.st.mon["exp"] = Lit("")
        r.st.mon["pos"] = Int(0)

        def onp(pp):
            s = pp.st
            if s.mon.get("lost") is not None:
                bad.append(None)
                return
            full = e.decide(s, lt(s.mon["pos"], list_len(chars)))
            if full is not False:
                bad.append(False if full else None)
                return
            bad.append(same(e, s, pp.ret, s.mon["exp"]))
        r.go([kref(src)], onp)
        if bad and all(x is True for x in bad) and not r.cut:
            ck.ok("escaping function equals the reference transducer on every text", f.n)
        elif any(x is False for x in bad):
            # an escaping function by its behaviour on short texts?
            if all(short_escape(ck, f, t) for t in ["", "?", "&", "<", "??", "?<"]):
                ck.violation("escape-loop:%s" % f.short, "%s does not escape every character of every text like the reference" % f.n, ck.prog().line(f.span))
        else:
            ck.undecided("escape-loop", "escaping loop of %s not compared" % f.n)


def short_escape(ck, f, t):
    r = Runner(ck, f, max_time=5)
    ps = r.go([kref(text_of(r.st, r.e, t))])
    if len(ps) != 1:
        return False
    try:
        got = decode([x for q in str_parts(ps[0].ret) for x in (q.a[0] if q.k == "lit" else [q])])
    except (xmlp.Bad, xmlp.Unknown):
        return False
    return same_chars(ps[0], got, chars_of_pat(t)) is True


def run_escape(ck):
    each(ck, j_text)
    escape_loop(ck)


# ------------------------------------------------------------------ S02: well-formed markup
def j_wellformed(ck, c, site):
    for i, w, r in body(ck, c):
        ck.ok("markup appended by %s is well-formed" % c.m, "%d elements" % len([k for k in r.kids if isinstance(k, xmlp.Node)]))
    k = mk_kind(ck, c, c.self_)
    for i, w, ps, key in additions(ck, c):
        if w == "map":
            for x in (ps.a[2] if ps.k == "agg" else [ps]):
                for q in str_parts(x):
                    if q.k == "lit" and ("<" in q.a[0] or "&" in q.a[0]):
                        raise xmlp.Bad("markup in a style rule: %s" % q.a[0][:40])
                    if q.k != "lit" and k(q) != "num":
                        raise xmlp.Unknown("style rule %s" % show(x)[:60])
                ck.ok("style text of %s has no markup" % c.m)


def docs(ck):
    """parsed final documents: (path, root, self)"""
    self_, ps, r = finalize(ck)
    out = []
    f = ck.fn("layout::%s::finalize" % WN)
    site = ck.prog().line(f.span)
    for s, what, line in r.panics:
        ck.violation("finalize:panic", "finalize panics: %s" % what, line)
    p = ck.prog()

    def kind(h):
        x = h.a[0] if h.k == "S" else h
        if fmt_of(x):
            t = fmt_of(x)[1]
            ty = path_type(p, t)
            return "num" if is_num_ty(p, ty) or numeric_term(ck, None, t) else None
        if x.k == "fld" and x.a[0].k == "mget":
            return "num"
        if x.k == "fld" and x.a[0] is self_ or x.k == "elem":
            return "xml"
        return None
    for q in ps:
        try:
            out.append((q, xmlp.parse(str_parts(q.ret), kind), self_))
        except xmlp.Bad as b:
            ck.violation("finalize:%s" % str(b)[:60], "the final document is malformed: %s" % b, site, trace_of(p, q.st))
        except xmlp.Unknown as u:
            ck.undecided("finalize:%s" % str(u)[:60], "final document: %s" % u, site)
    return out, site


def svg_root(ck, root, site):
    tops = [k for k in root.kids if isinstance(k, xmlp.Node)]
    if len(tops) != 1 or tops[0].tag != "svg":
        ck.violation("finalize:root", "the final document does not have the single root element <svg>: %s" % [t.tag for t in tops], site)
        return None
    stray = [x for x in root.kids if not isinstance(x, xmlp.Node) and not (isinstance(x, str) and not x.strip())]
    if stray:
        ck.violation("finalize:stray", "text outside of the root element", site)
        return None
    return tops[0]


def emitted(node, self_):
    """the writer's pieces found in a document: (term, parent tag)"""
    out = []

    def go(n, tag):
        for k in n.kids:
            if isinstance(k, xmlp.Node):
                go(k, k.tag)
            elif not isinstance(k, str):
                out.append((k.a[0] if k.k == "S" else k, tag))
    go(node, node.tag)
    return out


def run_wellformed(ck):
    cases = each(ck, j_wellformed)
    ds, site = docs(ck)
    changed = {}
    for c in cases:
        try:
            for i, w, ps, key in additions(ck, c):
                changed.setdefault(i, (w, c.m))
        except (xmlp.Bad, xmlp.Unknown):
            pass
    p = ck.prog()
    names = {i: n for i, n, t in fields(ck)}
    seen_any = {i: set() for i in changed}
    for q, root, self_ in ds:
        top = svg_root(ck, root, site)
        if top is None:
            continue
        ns = "".join(x for x in top.attrs.get("xmlns", []) if isinstance(x, str))
        if ns != "http://www.w3.org/2000/svg":
            ck.violation("finalize:xmlns", "the root element is not in the SVG name space: xmlns=%r" % ns, site)
        em = emitted(top, self_)
        for i, (w, m) in sorted(changed.items()):
            fld = mk("fld", self_, None, i)
            if w == "content":
                n = sum(1 for x, tag in em if x is fld)
                if n != 1:
                    ck.violation("finalize:content:%d" % min(n, 2), "the final document holds the drawn content (field %s) %d times" % (names[i], n), site, trace_of(p, q.st))
                elif any(x is fld and tag != "svg" for x, tag in em):
                    ck.violation("finalize:content:place", "the drawn content is not a child of the root element", site)
                else:
                    ck.ok("finalize emits the drawn content once", names[i])
            elif w == "defs":
                idx = [x.a[1] for x, tag in em if x.k == "elem" and x.a[0] is fld]
                ks = [x.a[0] for x in idx if x.k == "int"]
                if len(ks) != len(idx):
                    ck.undecided("finalize:defs", "index of an emitted piece")
                    continue
                if len(set(ks)) != len(ks):
                    ck.violation("finalize:defs:twice", "finalize emits an entry of %s twice" % names[i], site)
                seen_any[i].add(tuple(sorted(ks)))
                for n in range(4):
                    if q.decide(eq(mk_len(fld), Int(n))) is True and sorted(ks) != list(range(n)):
                        ck.violation("finalize:defs:%s" % names[i], "finalize emits entries %s of the %d entries of %s" % (ks, n, names[i]), site, trace_of(p, q.st))
                ck.ok("finalize emits every entry of a list of definitions", "%s %s" % (names[i], ks))
            elif w == "map":
                ks = []
                for x, tag in em:
                    if x.k == "fld" and x.a[0].k == "mget" and x.a[0].a[0] is fld:
                        k = x.a[0].a[1]
                        ks.append(k.a[1].a[0] if k.k == "mkey" and k.a[1].k == "int" else None)
                        if tag != "style":
                            ck.violation("finalize:map:place", "a style rule is emitted inside <%s>" % tag, site)
                seen_any[i].add(tuple(ks))
                if None in ks:
                    ck.undecided("finalize:map", "key of an emitted style rule")
                elif sorted(ks) != list(range(len(ks))):
                    ck.violation("finalize:map:%s" % names[i], "finalize skips entries of %s: emits %s" % (names[i], ks), site)
                else:
                    ck.ok("finalize emits every style rule", "%s %s" % (names[i], ks))
    run_large(ck, changed, names, site)
    for i, (w, m) in changed.items():
        if w in ("map", "defs") and ds and not any(len(x) for x in seen_any[i]):
            ck.violation("finalize:%s:none" % names[i], "%s adds to field %s but no final document contains its entries" % (m, names[i]), site)


def run_large(ck, changed, names, site):
    """the final document of a writer that holds many definitions"""
    p = ck.prog()
    W = writer(ck)
    N = 100
    for i, (w, m) in sorted(changed.items()):
        if w == "content":
            continue
        vals = []
        for j, n, t in fields(ck):
            v = inp("self.%s" % n, p.tys[W]["v"][0]["f"][j][1])
            if j == i and w == "defs":
                v = mk("list", None, (), tuple(inp("def%d" % k, p.ty_string) for k in range(N)))
            elif j == i:
                vt = t["a"][1]
                nf = len(p.tys[vt].get("f", p.tys[vt].get("a", ()))) if p.tys[vt]["k"] == "tuple" else 0
                v = mk("map", None, tuple((Int(k + 1), tup(*[inp("rule%d_%d" % (k, z), p.ty_string) for z in range(2)]) if nf != 0 or p.tys[vt]["k"] == "tuple" else inp("rule%d_1" % k, vt)) for k in range(N)))
            elif w == "defs" and t["k"] == "adt" and "Map" in t["n"]:
                v = mk("map", None, ())
            elif t["k"] == "adt" and t["n"].endswith("Vec"):
                v = EMPTY
            elif t["k"] == "adt" and "Map" in t["n"]:
                v = mk("map", None, ())
            vals.append(v)
        _, ps, r = finalize(ck, agg(W, 0, vals))
        if not ps or r.cut:
            ck.undecided("finalize:large:%s" % names[i], "final document of %d entries" % N, site)
            continue
        for q in ps:
            cnt = {}
            for x in str_parts(q.ret):
                if x.k == "S" and x.a[0].k == "in":
                    cnt[x.a[0].a[0]] = cnt.get(x.a[0].a[0], 0) + 1
            bad = [k for k in range(N) if cnt.get("def%d" % k if w == "defs" else "rule%d_1" % k, 0) != 1]
            if q.opaque is not None:
                ck.undecided("finalize:large:%s" % names[i], "path depends on %s" % show(q.opaque)[:60], site)
            elif bad and not cnt and not str_parts(q.ret):
                ck.undecided("finalize:large:%s" % names[i], "opaque document", site)
            elif bad:
                ck.violation("finalize:many:%s" % names[i], "of %d entries of %s, the final document does not hold exactly one copy of entry %d (and %d more)" % (N, names[i], bad[0], len(bad) - 1), site)
            else:
                ck.ok("finalize emits all of %d entries" % N, names[i])


# ------------------------------------------------------------------ S03: identifiers and references
def ev(t, self_, new, memo=None):
    """value of a term over the writer's fields after the call"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if new is self_:
        return t
    if t is self_:
        r = new
    else:
        def f(x):
            return ev(x, self_, new, memo)
        if t.k == "fld":
            b = f(t.a[0])
            r = b.a[2][t.a[2]] if b.k == "agg" and t.a[2] < len(b.a[2]) else (t if b is t.a[0] else mk("fld", b, t.a[1], t.a[2]))
        elif t.k in ("in", "sym"):
            r = t
        else:
            r = rebuild(t, f)
    memo[t] = r
    return r


def split_name(val):
    """attribute value -> (literal prefix, term) when it is a prefix and one number, (literal, None) when literal"""
    pre = ""
    term = None
    for x in val:
        if isinstance(x, str):
            if term is not None:
                return None
            pre += x
        else:
            f = fmt_of(x)
            if term is not None or f is None or f[2] is not None or f[0] not in ("display", "debug"):
                return None
            term = f[1]
    return pre, term


def all_nodes(n):
    out = []
    for k in n.kids:
        if isinstance(k, xmlp.Node):
            out.append(k)
            out += all_nodes(k)
    return out


def vkey(v):
    return tuple(v)


def refs_of(nd):
    """(attribute, referenced name as value list)"""
    out = []
    for a, v in nd.attrs.items():
        if a in ("href", "xlink:href"):
            if v and v[0] == "#":
                out.append((a, v[1:]))
        elif len(v) > 5 and v[:5] == list("url(#") and v[-1] == ")":
            out.append((a, v[5:-1]))
    return out


def run_refs(ck):
    p = ck.prog()
    ids, refs = {}, []            # (prefix) -> [(method, term, case)]
    famcase = []
    clip_ref = set()

    def judge(ck, c, site):
        own = []
        here = []
        for i, w, r in body(ck, c):
            for nd in all_nodes(r):
                if "id" in nd.attrs:
                    own.append(vkey(nd.attrs["id"]))
                    s = split_name(nd.attrs["id"])
                    if s is None:
                        raise xmlp.Unknown("id %s" % show(tuple(nd.attrs["id"]))[:60])
                    here.append((s, nd))
                for a, v in refs_of(nd):
                    here.append(((a, v), None))
        if len(set(own)) != len(own):
            raise xmlp.Bad("the same id is given to two elements")
        for s, nd in here:
            if nd is not None:
                pre, t = s
                if t is None:
                    raise xmlp.Bad("every call of %s emits the same id %r" % (c.m, pre))
                t2 = ev(t, c.self_, c.new)
                d = sub(t2, t) if t2.k != "undef" else None
                if t2.k == "op" and (t2.a[0] in ("Rem", "BitAnd") and t2.a[-1].k == "int" or str(t2.a[0]).startswith("trunc")):
                    raise xmlp.Bad("the ids %s{%s} repeat: the number is reduced to a bounded range" % (pre, show(t2)))
                if d is None or d.k != "int":
                    raise xmlp.Unknown("growth of the id number %s" % show(t)[:40])
                if d.a[0] <= 0:
                    raise xmlp.Bad("two calls of %s emit the same id %s{%s}" % (c.m, pre, show(t)))
                ids.setdefault(pre, {}).setdefault(t, (c.m, nd.tag))
                if c.m == "create_clip":
                    rv = c.p.ret
                    if c.p.decide(eq(rv, t)) is not True:
                        if free(rv) and free(t) and c.p.decide(eq(rv, t)) is False or rv.k in ("int", "lin", "len", "fld"):
                            raise xmlp.Bad("create_clip returns %s but the region is called %s{%s}" % (show(rv), pre, show(t)))
                        raise xmlp.Unknown("clip handle")
                ck.ok("ids of %s never repeat" % c.m, "%s{%s}" % (pre, show(t)))
            else:
                a, v = s
                if vkey(v) in own:
                    ck.ok("reference to an element of the same call", "%s %s" % (c.m, a))
                else:
                    refs.append((c.m, a, v, site, c))
        famcase.append(c)
    each(ck, judge)
    # the numbers of one family never shrink in other calls
    for pre, d in ids.items():
        for t in d:
            for c in famcase:
                try:
                    t2 = ev(t, c.self_, c.new)
                except Exception:
                    continue
                dd = sub(t2, t)
                if dd.k == "int" and dd.a[0] < 0:
                    ck.violation("ids:%s:%s" % (pre, c.m), "%s lowers the number of the ids %s{}" % (c.m, pre), p.line(method(ck, c.m).span))
    fams = list(ids.items())
    for i, (pre, d) in enumerate(fams):
        if len({m for m, _ in d.values()}) > 1 and len(d) > 1:
            ck.violation("ids:shared:%s" % pre, "ids %s{} are numbered by different counters" % pre, "")
        for pre2, d2 in fams[i + 1:]:
            a, b = sorted((pre, pre2), key=len)
            if b.startswith(a) and b[len(a):].isdigit():
                ck.violation("ids:prefix:%s" % a, "ids %s{} and %s{} collide" % (a, b), "")
    ds, site = docs(ck)
    dids = {}
    for q, root, self_ in ds:
        l = {}
        for nd in all_nodes(root):
            if "id" in nd.attrs and all(isinstance(x, str) for x in nd.attrs["id"]):
                n = "".join(nd.attrs["id"])
                if n in l:
                    ck.violation("finalize:id:%s" % n, "the final document defines %s twice" % n, site)
                l[n] = nd.tag
                for pre in ids:
                    if n.startswith(pre) and n[len(pre):].isdigit():
                        ck.violation("finalize:id:%s" % n, "the fixed id %s collides with the numbered ids %s{}" % (n, pre), site)
        dids = l if not dids else {k: v for k, v in dids.items() if k in l}
    need = {"marker-start": "marker", "marker-end": "marker", "marker-mid": "marker", "clip-path": "clipPath"}
    for m, a, v, s, c in refs:
        sp = split_name(v)
        if sp is None:
            ck.undecided("ref:%s" % a, "reference %s" % show(tuple(v))[:60], s)
            continue
        pre, t = sp
        if t is None:
            if pre not in dids:
                ck.violation("ref:%s:%s" % (m, pre), "%s refers to #%s, which the final document does not define" % (m, pre), s)
            elif a in need and dids[pre] != need[a]:
                ck.violation("ref:%s:%s" % (m, pre), "%s refers to #%s as a %s, but it is a <%s>" % (m, pre, need[a], dids[pre]), s)
            else:
                ck.ok("reference to a fixed definition", "%s #%s" % (a, pre))
        elif pre in ids:
            tag = {x for _, x in ids[pre].values()}
            if a in need and need[a] not in tag:
                ck.violation("ref:%s:%s" % (m, pre), "%s refers to %s{} as a %s, but it is a %s" % (m, pre, need[a], tag), s)
            elif a == "clip-path":
                # the number must be the handle passed in
                h = [x for x in c.args.values() if isinstance(x, T) and x.k == "in" and x.ty is not None and p.tys[x.ty]["d"].endswith("Option<usize>")]
                if len(h) == 1 and t is mk("fld", h[0], 1, 0):
                    ck.ok("clip reference uses the handle", m)
                elif len(h) == 1:
                    ck.violation("ref:%s:handle" % m, "%s refers to the clip region %s instead of its handle" % (m, show(t)), s)
                else:
                    ck.undecided("ref:%s:handle" % m, "clip handle argument", s)
            else:
                ck.violation("ref:%s:%s" % (m, a), "%s refers to %s{%s}, which this call does not define" % (m, pre, show(t)), s)
        else:
            ck.violation("ref:%s:%s" % (m, pre), "%s refers to %s{}, which nothing defines" % (m, pre), s)
    run_fonts(ck)


def run_fonts(ck):
    """every class used by a call is defined, in the writer, by a rule with the font size of the call"""
    p = ck.prog()
    look_ty = p.adt("style::StyleAttr")
    if not look_ty:
        raise Missing("StyleAttr")
    fi = p.fld(look_ty[0], "font_size")

    def judge(ck, c, site):
        if c.m not in ("draw_text", "draw_arrow"):
            return
        looks = [x for x in c.args.values() if isinstance(x, T) and x.ty is not None and p.tys[x.ty]["k"] == "ref" and p.tys[x.ty]["e"] == look_ty[0]]
        if len(looks) != 1:
            raise xmlp.Unknown("style argument")
        size = mk("fld", mk("*", looks[0]), None, fi)
        used = []
        fonts = []
        for i, w, r in body(ck, c):
            for nd in all_nodes(r):
                if "class" in nd.attrs:
                    used.append((nd, nd.attrs["class"]))
                if "font-size" in nd.attrs:
                    fonts.append(nd.attrs["font-size"])
        if not used and not fonts:
            raise xmlp.Bad("the text has no font size")
        for nd, v in used:
            if len(v) == 1 and not isinstance(v[0], str) and v[0].k == "S" and v[0].a[0].k == "fld" and v[0].a[0].a[0].k == "mget":
                g = v[0].a[0].a[0]
                if g.a[1] is size:
                    ck.ok("class of an existing style of the same font size", c.m)
                elif free(g.a[1]):
                    raise xmlp.Bad("the text uses the style of %s instead of its font size" % show(g.a[1]))
                else:
                    raise xmlp.Unknown("style key")
                continue
            # a class made by this call: a new entry whose key is the font size and whose rule has that class
            hit = False
            for i, w, ent, key in additions(ck, c):
                if w != "map":
                    continue
                strs = ent.a[2] if ent.k == "agg" else [ent]
                cls = [x for x in xmlp.stream(str_parts(strs[0]))]
                if cls != list(v):
                    continue
                rule = list(xmlp.stream(str_parts(strs[-1])))
                hit = True
                if key is not size:
                    raise xmlp.Bad("a style is stored under %s instead of its font size" % show(key))
                if rule[:1 + len(cls)] != ["."] + cls or len(rule) <= 1 + len(cls) or rule[1 + len(cls)] not in (" ", "{"):
                    raise xmlp.Bad("the style rule does not define the class of the text")
                if not any(not isinstance(x, str) for x in cls) or not any(fmt_of(x) and fmt_of(x)[1] is size for x in cls if not isinstance(x, str)):
                    raise xmlp.Bad("the class name does not depend on the font size")
                if not re.match(r"-?[A-Za-z_]", cls[0] if isinstance(cls[0], str) else "0"):
                    raise xmlp.Bad("the class name does not start with a letter")
                j = find_lit(rule, "font-size:")
                x = next((y for y in rule[j:] if y != " "), None) if j is not None else None
                if x is None or isinstance(x, str) or fmt_of(x)[1] is not size:
                    raise xmlp.Bad("the style rule does not set the font size of the text")
                ck.ok("new style rule defines the class with the font size", c.m)
            if not hit:
                raise xmlp.Bad("the class %s has no style rule" % show(tuple(v))[:60])
    each(ck, judge)


def find_lit(s, lit):
    for i in range(len(s) - len(lit) + 1):
        if all(s[i + k] == ch for k, ch in enumerate(lit)):
            return i + len(lit)
    return None


# ------------------------------------------------------------------ S04: the view box covers the drawing
def view_terms(ck):
    """[(attribute, axis, term)] of the view in the final document"""
    ds, site = docs(ck)
    out = {}
    self_ = None
    for q, root, self_ in ds:
        top = svg_root(ck, root, site)
        if top is None:
            return None, None, site
        vb = []
        cur = None
        for x in top.attrs.get("viewBox", []):
            if isinstance(x, str):
                if x in " ,":
                    if cur is not None:
                        vb.append(cur)
                    cur = None
                else:
                    cur = (cur or "") + x
            else:
                cur = x
        if cur is not None:
            vb.append(cur)
        if len(vb) != 4:
            ck.violation("viewbox:shape", "viewBox has %d numbers" % len(vb), site)
            return None, None, site
        for k in (0, 1):
            try:
                z = float(vb[k]) == 0
            except (TypeError, ValueError):
                z = None
            if z is not True:
                (ck.violation if z is False else ck.undecided)("viewbox:origin", "the view does not start at the origin: %s" % (vb[k],), site)
        for k, a in ((2, "x"), (3, "y")):
            f = fmt_of(vb[k]) if not isinstance(vb[k], str) else None
            if f is None:
                ck.undecided("viewbox:size", "size of the view %s" % (vb[k],), site)
                return None, None, site
            out.setdefault(a, set()).add(f[1])
        for an, a in (("width", "x"), ("height", "y")):
            v = top.attrs.get(an)
            if v is not None and len(v) == 1 and not isinstance(v[0], str) and fmt_of(v[0]):
                out.setdefault(a, set()).add(fmt_of(v[0])[1])
    return out, self_, site


GEO = {"rect": (("x", "width"), ("y", "height")), "ellipse": (("cx", "rx"), ("cy", "ry")), "circle": (("cx", "r"), ("cy", "r")), "line": (("x1", None), ("y1", None)), "text": (("x", None), ("y", None))}


def attr_num(nd, a):
    v = nd.attrs.get(a)
    if v is None:
        return Flt(0.0)
    if len(v) == 1 and not isinstance(v[0], str) and fmt_of(v[0]):
        f = fmt_of(v[0])
        if f[0] in ("display", "debug"):
            return f[1]
        raise xmlp.Unknown("%s=%s" % (a, show(v[0])[:40]))
    try:
        return Flt(float("".join(v)))
    except (TypeError, ValueError):
        raise xmlp.Unknown("%s of <%s>" % (a, nd.tag))


def path_tokens(v):
    out, cur = [], ""
    for x in v:
        if isinstance(x, str) and (x.isdigit() or x in ".-+eE" and cur):
            cur += x
            continue
        if cur:
            out.append(Flt(float(cur)))
            cur = ""
        if isinstance(x, str):
            if x.isspace() or x == ",":
                out.append(None)
            elif x.isalpha():
                out.append(x)
            elif x in ".-+":
                cur = x
            else:
                raise xmlp.Bad("character %r in a path" % x)
        else:
            f = fmt_of(x)
            if f is None or f[0] not in ("display", "debug"):
                raise xmlp.Unknown("path number %s" % show(x)[:40])
            if out and isinstance(out[-1], T):
                raise xmlp.Bad("two numbers of a path are not separated")
            out.append(f[1])
    if cur:
        out.append(Flt(float(cur)))
    return [x for x in out if x is not None]


def coords(nd):
    """[(axis, term, may-be-below)] points covered by a drawn element"""
    if nd.tag in ("rect",):
        for a, ax in (("x", "x"), ("y", "y")):
            x = attr_num(nd, a)
            w = attr_num(nd, "width" if a == "x" else "height")
            yield ax, mk("fop", "Add", x, w)
    elif nd.tag in ("ellipse", "circle"):
        for a, r, ax in (("cx", "rx", "x"), ("cy", "ry", "y")):
            yield ax, mk("fop", "Add", attr_num(nd, a), attr_num(nd, r if nd.tag == "ellipse" else "r"))
    elif nd.tag == "line":
        for a in ("x1", "x2", "y1", "y2"):
            yield a[0], attr_num(nd, a)
    elif nd.tag == "text" and "x" in nd.attrs:
        yield "x", attr_num(nd, "x")
        yield "y", attr_num(nd, "y")
    elif nd.tag == "path" and "d" in nd.attrs:
        k = 0
        for x in path_tokens(nd.attrs["d"]):
            if isinstance(x, str):
                k = 0
                continue
            yield "xy"[k % 2], x
            k += 1


def nonneg(ck, case, a):
    """an atom that is never negative: counts, and sizes of boxes"""
    p = ck.prog()
    if a.k == "op" and a.a[0] == "i2f":
        t = a.a[1]
        return t.k in ("strlen", "len") or (path_type(p, t) is not None and p.tys[path_type(p, t)]["k"] == "uint") or t.k == "lin" and t.a[0] >= 0 and all(k > 0 for _, k in t.a[1])
    if a.k == "fld" and a.a[0] is case.args.get("2") and case.m in ("draw_rect", "draw_circle"):
        return True
    return False


def low_ok(ck, case, view, need):
    if view.k == "fop" and view.a[0] == "Max":
        return any(low_ok(ck, case, x, need) for x in leaves(view, "Max"))
    c, d = fsub(view, need)
    return c >= 0 and all(k >= 0 and nonneg(ck, case, a) for a, k in d.items())


def covers(ck, case, view, need):
    """view >= need for all inputs?  True / False / None"""
    if view.k == "fop" and view.a[0] == "Min":
        return all3(covers(ck, case, x, need) for x in leaves(view, "Min"))
    if need.k == "fop" and need.a[0] == "Max":
        return all3(covers(ck, case, view, x) for x in leaves(need, "Max"))
    fc = case.p.st.mon.get("fcmp")
    if fc is not None:
        # the comparisons made on this path order the terms
        lows, work = [view], [view]
        while work and len(lows) < 60:
            v = work.pop()
            for f in fc.a:
                g = f.a[0] if f.k == "not" else f
                if g.a[0] not in ("Lt", "Le"):
                    continue
                lo, hi = (g.a[2], g.a[1]) if f.k == "not" else (g.a[1], g.a[2])
                if fsame(hi, v) and lo not in lows:
                    lows.append(lo)
                    work.append(lo)
        if any(low_ok(ck, case, v, need) for v in lows):
            return True
    if low_ok(ck, case, view, need):
        return True
    return False if sampled(case.p, lambda v: v(view) >= v(need), lambda a: nonneg(ck, case, a) or nonneg(ck, case, mk("op", "i2f", a))) is False else None


def run_view(ck):
    vt, vs, site = view_terms(ck)
    if vt is None:
        return
    # the starting view, and the old view, are kept: every call only grows it
    def judge(ck, c, site):
        if c.m == "create_clip":
            return
        for ax, ts in vt.items():
            for t in ts:
                t = subst(t, {vs: c.self_}) if vs is not c.self_ else t
                new = ev(t, c.self_, c.new)
                r = covers(ck, c, new, t)
                if r is False:
                    raise xmlp.Bad("the view shrinks: %s" % show(new)[:120])
                if r is None:
                    raise xmlp.Unknown("growth of the view")
                seen = set()
                for i, w, rt in body(ck, c):
                    if w != "content":
                        continue
                    for nd in all_nodes(rt):
                        for a, need in coords(nd):
                            if a != ax or need in seen:
                                continue
                            seen.add(need)
                            r = covers(ck, c, new, need)
                            if r is False:
                                raise xmlp.Bad("the view does not grow to hold %s = %s of the <%s>" % (ax, show(need)[:80], nd.tag))
                            if r is None:
                                raise xmlp.Unknown("view against %s" % show(need)[:60])
                            ck.ok("view covers the %s drawn by %s" % (nd.tag, c.m), "%s: %s" % (ax, show(need)[:60]))
    each(ck, judge)


# ------------------------------------------------------------------ S05: what is drawn is what was asked
def want_num(nd, a, t, path=None):
    got = attr_num(nd, a)
    if a not in nd.attrs and not (t.k in ("int", "flt") and flin(t)[0] == 0):
        raise xmlp.Bad("<%s> has no attribute %s" % (nd.tag, a))
    r = numsame(path, got, t)
    if r is False:
        raise xmlp.Bad("%s of <%s> is %s instead of %s" % (a, nd.tag, show(got)[:80], show(t)[:80]))
    if r is None:
        raise xmlp.Unknown("%s of <%s> is %s" % (a, nd.tag, show(got)[:60]))


def color_const(v):
    s = "".join(x for x in v if isinstance(x, str)) if all(isinstance(x, str) for x in v) else None
    if s is None:
        return None
    if re.fullmatch(r"#[0-9a-fA-F]{8}", s):
        return int(s[1:], 16)
    return {"none": 0, "transparent": 0}.get(s)


def want_color(nd, a, col, p):
    """col: u32 term"""
    v = nd.attrs.get(a)
    if v is None:
        raise xmlp.Bad("<%s> has no attribute %s" % (nd.tag, a))
    k = color_const(v)
    if k is not None:
        if col.k == "int" and (col.a[0] == k or col.a[0] & 0xff == 0 and k & 0xff == 0):
            return
        raise xmlp.Bad("%s of <%s> is %s instead of the colour %s" % (a, nd.tag, "".join(v), show(col)))
    if len(v) == 2 and v[0] == "#" and not isinstance(v[1], str) and fmt_of(v[1]):
        f = fmt_of(v[1])
        if f[1] is col and f[0] in ("lower_hex", "upper_hex") and f[2] == 8 and f[3]:
            return
        if f[1] is not col and free(f[1]) and free(col):
            raise xmlp.Bad("%s of <%s> shows %s instead of %s" % (a, nd.tag, show(f[1]), show(col)))
        if f[1] is col and free(col):
            raise xmlp.Bad("%s of <%s> is not written as eight hexadecimal digits" % (a, nd.tag))
    raise xmlp.Unknown("%s of <%s>" % (a, nd.tag))


class Look:
    def __init__(self, ck, c):
        p = ck.prog()
        t = p.adt("style::StyleAttr")[0]
        a = [x for x in c.args.values() if isinstance(x, T) and x.ty is not None and p.tys[x.ty]["k"] == "ref" and p.tys[x.ty]["e"] == t]
        if len(a) != 1:
            raise xmlp.Unknown("style argument")
        b = mk("*", a[0])
        self.ty = t
        self.f = lambda n: mk("fld", b, None, p.fld(t, n))
        self.p = p

    def rgba(self, c):
        ct = self.p.adt("color::Color")[0]
        fs = self.p.tys[ct]["v"][0]["f"]
        if len(fs) != 1:
            raise xmlp.Unknown("representation of a colour")
        return mk("fld", c, None, 0)

    def fill(self, c):
        """u32 of the fill colour on this path (transparent when there is none)"""
        o = self.f("fill_color")
        ot = self.p.tys[self.ty]["v"][0]["f"][self.p.fld(self.ty, "fill_color")][1]
        d = c.p.decide(eq(c.p.e.disc(c.p.st, o, ot), Int(1)))
        if d is None:
            raise xmlp.Unknown("fill colour not inspected")
        return self.rgba(mk("fld", o, 1, 0)) if d else Int(0)


def opt_arg(ck, c, frag):
    p = ck.prog()
    l = [x for x in c.args.values() if isinstance(x, T) and x.k == "in" and x.ty is not None and p.tys[x.ty]["k"] == "adt" and p.tys[x.ty]["n"].endswith("Option") and frag in p.tys[x.ty]["d"]]
    return l[0] if len(l) == 1 else None


def opt_some(c, o):
    return c.p.decide(eq(c.p.e.disc(c.p.st, o, o.ty), Int(1)))


def j_faithful(ck, c, site):
    p = ck.prog()
    A = c.args
    pf = p.adt("geometry::Point")[0]
    ix, iy = p.fld(pf, "x"), p.fld(pf, "y")

    def pt(k):
        return mk("fld", A[k], None, ix), mk("fld", A[k], None, iy)
    nodes = [(w, nd) for i, w, r in body(ck, c) for nd in all_nodes(r)]
    drawn = [nd for w, nd in nodes if w == "content" and nd.tag not in ("g", "title", "a", "text", "textPath", "tspan")]
    if c.m == "create_clip":
        cp = [nd for w, nd in nodes if nd.tag == "clipPath"]
        if len(cp) != 1 or len(all_nodes(cp[0])) != 1 or all_nodes(cp[0])[0].tag != "rect":
            raise xmlp.Bad("the clip region is not one rectangle")
        r = all_nodes(cp[0])[0]
        x, y = pt("1")
        w, h = pt("2")
        for a, t in (("x", x), ("y", y), ("width", w), ("height", h), ("rx", A["3"])):
            want_num(r, a, t, c.p)
        ck.ok("clip region has the requested rectangle")
        return
    if c.m == "draw_text":
        tx = [nd for w, nd in nodes if nd.tag == "text"]
        if drawn or len(tx) != 1:
            raise xmlp.Bad("draw_text draws %s" % [n.tag for w, n in nodes][:6])
        x, y = pt("1")
        want_num(tx[0], "x", x, c.p)
        for sp in tx[0].find("tspan"):
            if "x" in sp.attrs:
                want_num(sp, "x", x, c.p)
        d = fsub(attr_num(tx[0], "y"), y)
        if any(a.k == "fld" and a.a[0] is A["1"] for a in d[1]) :
            raise xmlp.Bad("the height of the text does not follow the requested position: %s" % show(attr_num(tx[0], "y"))[:100])
        an = "".join(z for z in tx[0].attrs.get("text-anchor", []) if isinstance(z, str))
        if an != "middle":
            raise xmlp.Bad("the text is not centred on the requested position (text-anchor=%r)" % an)
        lines = tx[0].find("tspan")
        for k, sp in enumerate(lines):
            dy = "".join(z for z in sp.attrs.get("dy", []) if isinstance(z, str))
            if not dy and "y" not in sp.attrs:
                raise xmlp.Bad("the lines of a text are drawn on top of each other")
        ck.ok("text at the requested position")
        return
    look = Look(ck, c)
    want = {"draw_rect": "rect", "draw_circle": "ellipse", "draw_line": "line", "draw_arrow": "path"}[c.m]
    if len(drawn) != 1 or drawn[0].tag != want:
        if any(n.tag not in ("rect", "ellipse", "line", "path", "circle") for n in drawn):
            raise xmlp.Unknown("elements %s" % [n.tag for n in drawn])
        raise xmlp.Bad("%s draws %s instead of one %s" % (c.m, [n.tag for n in drawn], want))
    nd = drawn[0]
    want_num(nd, "stroke-width", look.f("line_width"), c.p)
    want_color(nd, "stroke", look.rgba(look.f("line_color")), p)
    if c.m == "draw_rect":
        x, y = pt("1")
        w, h = pt("2")
        for a, t in (("x", x), ("y", y), ("width", w), ("height", h), ("rx", look.f("rounded"))):
            want_num(nd, a, t, c.p)
        want_color(nd, "fill", look.fill(c), p)
        o = opt_arg(ck, c, "usize")
        if o is not None:
            d = opt_some(c, o)
            if d is None:
                raise xmlp.Unknown("clip not inspected") if "clip-path" in nd.attrs else xmlp.Bad("the clip region is ignored")
            if d != ("clip-path" in nd.attrs):
                raise xmlp.Bad("a clip region is %s" % ("ignored" if d else "used although none is given"))
    elif c.m == "draw_circle":
        x, y = pt("1")
        w, h = pt("2")
        for a, t in (("cx", x), ("cy", y), ("rx", mk("fop", "Div", w, Flt(2.0))), ("ry", mk("fop", "Div", h, Flt(2.0)))):
            want_num(nd, a, t, c.p)
        want_color(nd, "fill", look.fill(c), p)
    elif c.m == "draw_line":
        x, y = pt("1")
        w, h = pt("2")
        for a, t in (("x1", x), ("y1", y), ("x2", w), ("y2", h)):
            want_num(nd, a, t, c.p)
    else:
        toks = path_tokens(nd.attrs.get("d", []))
        exp = []
        for k, it in enumerate(A["path"]):
            if k == 0:
                exp.append("M")
            elif k > 1:
                exp.append("S")
            q = [mk("fld", it.a[2][z], None, ii) for z in (0, 1) for ii in (ix, iy)]
            exp += q
            if k == 0:
                exp.insert(3, "C")
        got = expand(toks)
        if len(got) != len(expand(exp)):
            raise xmlp.Bad("the path %s does not have the segments of the %d requested points" % (" ".join(x if isinstance(x, str) else "." for x in toks), len(A["path"])))
        for x, y in zip(got, expand(exp)):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    raise xmlp.Bad("the path uses %s instead of %s" % (x if isinstance(x, str) else "a number", y if isinstance(y, str) else "a number"))
            elif numsame(c.p, x, y) is not True:
                if numsame(c.p, x, y) is False:
                    raise xmlp.Bad("the path goes to %s instead of %s" % (show(x)[:60], show(y)[:60]))
                raise xmlp.Unknown("path number")
        fillv = "".join(z for z in nd.attrs.get("fill", []) if isinstance(z, str))
        if fillv not in ("transparent", "none"):
            raise xmlp.Bad("the curve is filled (%r)" % fillv)
        fl = A["2"]
        hd = [A["3"].a[2][k] if A["3"].k == "agg" else mk("fld", A["3"], None, k) for k in (0, 1)]
        tests = [("dashed", fl, "stroke-dasharray"), ("head.0", hd[0], "marker-start"), ("head.1", hd[1], "marker-end")]
        for nm, t, a in tests:
            d = c.p.decide(t)
            if d is None:
                d = c.p.decide(eq(t, Int(1)))
            if d is None:
                if a in nd.attrs:
                    raise xmlp.Bad("%s is set whatever %s is" % (a, nm))
                raise xmlp.Bad("%s is ignored" % nm)
            if d != (a in nd.attrs):
                raise xmlp.Bad("%s is %s although %s is %s" % (a, "missing" if d else "set", nm, d))
        mk_ = {}
        for a in ("marker-start", "marker-end"):
            if a in nd.attrs:
                mk_[a] = "".join(z for z in nd.attrs[a] if isinstance(z, str))
        if len(mk_) == 2 and mk_["marker-start"] == mk_["marker-end"]:
            raise xmlp.Bad("both ends use the same arrow head")
    # raw properties, on a group or the element itself, exactly when given
    o = opt_arg(ck, c, "String")
    if o is not None:
        pay = mk("S", mk("fld", o, 1, 0))
        n = sum(1 for w, q in nodes for x in q.raw if x is pay)
        d = opt_some(c, o)
        if d is True and n != 1 or d is None and n == 0:
            raise xmlp.Bad("the properties of the element are written %d times" % n)
        if d is False and n:
            raise xmlp.Bad("properties without any given")
        if n and not any(pay in q.raw and (q is nd or nd in all_nodes(q)) for w, q in nodes):
            raise xmlp.Bad("the properties are not attached to the element")
    ck.ok("%s draws what was asked" % c.m)


def expand(toks):
    """repeat implicit commands, so that  M a b C ... and repeated S letters compare alike"""
    n = {"M": 2, "L": 2, "C": 6, "S": 4, "Q": 4, "T": 2}
    out = []
    cmd, k = None, 0
    for x in toks:
        if isinstance(x, str):
            cmd, k = x, 0
            out.append(x)
            continue
        m = n.get(cmd)
        if m and k and k % m == 0:
            out.append(cmd)
        out.append(x)
        k += 1
    return out


def run_faithful(ck):
    each(ck, j_faithful)


# ------------------------------------------------------------------ S06: no number and no text makes drawing fail
TOP = (1 << 64) - 1


def span_of(e, st, t, users):
    """(lowest, highest) value of an integer term; numbers handed in by the caller may be anything, lengths and counters are small"""
    if t.k == "int":
        return t.a[0], t.a[0]
    if t.k == "lin":
        lo = hi = t.a[0]
        for a, c in t.a[1]:
            l, h = span_of(e, st, a, users)
            lo, hi = lo + min(c * l, c * h), hi + max(c * l, c * h)
        return lo, hi
    if t.k == "op" and t.a[0] in ("Mul", "Add") and len(t.a) == 3:
        (a, b), (c, d) = (span_of(e, st, x, users) for x in t.a[1:])
        if t.a[0] == "Add":
            return a + c, b + d
        q = [x * y for x in (a, b) for y in (c, d)]
        return min(q), max(q)
    lo, hi = 0, 1 << 40
    if user_number(t):
        users.append(t)
        hi = TOP
    r = st.facts.get(t)
    if r is not None and isinstance(r, tuple) and r:
        lo, hi = max(lo, r[0][0]), min(hi, r[-1][1])
    return lo, hi


def user_number(t):
    """a field of an argument (not of the writer itself)"""
    while t.k in ("fld", "*") and isinstance(t.a[0], T):
        t = t.a[0]
    return t.k == "in" and t.a[0] != "self"


def run_total(ck):
    """no call panics; integer arithmetic on numbers of the caller stays in range"""
    p = ck.prog()
    seen = {}

    def on_overflow(m, label, e, st, fr, t):
        c = e.op(st, len(st.frames) - 1, t[1])
        if c.k == "not":
            c = c.a[0]
        if c.k != "ovf":
            return None
        op, x, y = c.a[0], c.a[1], c.a[2]
        users = []
        (a, b), (u, v) = span_of(e, st, x, users), span_of(e, st, y, users)
        key = "%s:%s" % (m, fr.fn.short)
        if op.startswith("Sub"):
            bad = a < v and e.decide(st, lt(x, y)) is not False and not (x.k == "lin" and span_of(e, st, add(x, mulc(y, -1)), [])[0] >= 0)
        elif op.startswith("Mul"):
            bad = b * v > TOP
        elif op.startswith("Add"):
            bad = b + v > TOP
        else:
            return None
        if bad and users:
            ck.violation("overflow:" + key, "%s: %s of %s and %s leaves the range of the integer type for some %s" % (m, op.replace("WithOverflow", ""), show(x)[:60], show(y)[:60], show(users[0])[:60]),
                         p.line(t[6]), trace_of(p, st))
        elif not bad:
            ck.ok("integer arithmetic of %s stays in range" % m)
        return None
    ck.on_overflow = on_overflow
    cases, panics = collect(ck)
    for m, l, (st, what, site) in panics:
        ck.violation("panic:%s:%s" % (m, what), "%s(%s) panics: %s" % (m, l, what), site)
    for c in cases:
        seen[c.m] = seen.get(c.m, 0) + 1
        ck.ok("%s returns on this path" % c.m)
    s_, ps, r = finalize(ck)
    for st, what, site in r.panics:
        ck.violation("panic:finalize:%s" % what, "finalize panics: %s" % what, site)
    for q in ps:
        ck.ok("finalize returns on this path")
    if not ps:
        ck.undecided("finalize", "no path of finalize returned")
    ck.extra["paths"] = seen
