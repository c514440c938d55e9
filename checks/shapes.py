"""V06, V07, R02, A01, G*: drawing of elements, records and arrows, and the geometry below them"""
import itertools
import math
import random
from terms import *
from core import *
from sym import *
from common import *
from build import *
from graph import GJudge, FLT, PT

BK = "layout::core::format::RenderBackend::"
RD = "layout::std_shapes::render::"
EL = RD + "<impl layout::core::format::Renderable for layout::std_shapes::shapes::Element>::"
POS = "layout::core::geometry::Position::"


class SWorld:
    def __init__(self, ck, fam):
        self.ck, self.fam = ck, fam
        T = self.T = Types(ck)
        self.elem, self.arrow, self.look_t = T.ty("shapes::Element"), T.ty("shapes::Arrow"), T.ty("style::StyleAttr")
        self.pos_t, self.pt_t = T.ty("geometry::Position"), T.ty("geometry::Point")
        self.shape, self.orient, self.rec = T.field_ty(self.elem, "shape"), T.field_ty(self.elem, "orientation"), T.ty("shapes::RecordDef")
        self.num = T.field_ty(self.pt_t, "x")
        self.str = T.field_ty(self.arrow, "text")
        self.opt_str = T.field_ty(self.elem, "properties")
        self.j = GJudge.__new__(GJudge)
        self.j.ck, self.j.fam, self.j.T = ck, fam, T

    def pt(self, n):
        return PT(self.T, inp(n + ".x", self.num), inp(n + ".y", self.num))

    def pos(self, n):
        return self.T.make(self.pos_t, {k: self.pt("%s.%s" % (n, k)) for k in ("middle", "size", "center", "halo")})

    def look(self, n, **kw):
        d = {k: inp("%s.%s" % (n, k), t) for k, t in self.T.variants(self.look_t)[0]["f"]}
        d.update(kw)
        return self.T.make(self.look_t, d)

    def element(self, n, shape, orient="TopToBottom", pos=None, look=None):
        T = self.T
        return T.make(self.elem, {"shape": shape, "look": look or inp(n + ".look", self.look_t), "orientation": T.make(self.orient, [], orient),
                                  "pos": pos or self.pos(n), "properties": inp(n + ".properties", self.opt_str)})

    def sh(self, kind, *a):
        return self.T.make(self.shape, list(a), kind)

    # calls of the backend are recorded
    def handlers(self, clip=True):
        def rec(name):
            def h(e, st, a, ty, ctx):
                l = st.mon.get("s:calls")
                st.mon["s:calls"] = mk("lst", *(tuple(l.a) if l is not None else ()), tup(Lit(name), *[e.snap(st, x) for x in a[1:]]))
                if name == "create_clip":
                    return inp("clip")
                return UNIT
            return h
        return {BK + n: rec(n) for n in ("draw_rect", "draw_line", "draw_circle", "draw_text", "draw_arrow", "create_clip")}

    def calls(self, p):
        l = p.st.mon.get("s:calls")
        return [] if l is None else [(str_const(c.a[0]), list(c.a[1:])) if c.k == "tup" else (str_const(c.a[2][0]), list(c.a[2][1:])) for c in l.a]

    def run(self, name, args, handlers=None, time=20, **kw):
        """paths of one call; args by value are kept as they are, ("ref", v) becomes a reference"""
        h = self.handlers()
        h.update(handlers or {})
        f = name if not isinstance(name, str) else self.ck.fn(name)
        r = Runner(self.ck, f, max_time=time, handlers=h, max_rec=14, unroll=200, **kw)
        r.e.keep_fcmp = True
        al = []
        for i, a in enumerate(args):
            al.append(r.cell("a%d" % i, a[1]) if isinstance(a, tuple) else a)
        r.go(al)
        self.panics = r.panics
        return None if r.cut else r.paths

    # comparisons of numbers and points
    def numeq(self, p, x, y):
        return numsame(p, x, y)

    def peq(self, p, v, x, y):
        return all3((self.numeq(p, self.T.get(v, "x"), x), self.numeq(p, self.T.get(v, "y"), y)))

    def pteq(self, p, v, w):
        return self.peq(p, v, self.T.get(w, "x"), self.T.get(w, "y"))

    def xy(self, v):
        return self.T.get(v, "x"), self.T.get(v, "y")

    def parts(self, pos):
        return {k: self.xy(self.T.get(pos, k)) for k in ("middle", "size", "center", "halo")}


def fadd(x, y):
    return mk("fop", "Add", x, y)


def fsubt(x, y):
    return mk("fop", "Sub", x, y)


def fmul(x, k):
    return mk("fop", "Mul", x, FLT(k))


def op2(f, a, b):
    return f(a[0], b[0]), f(a[1], b[1])


# ------------------------------------------------------------------ V06
def run_elements(ck):
    """what Element::render draws for every kind of shape"""
    w = SWorld(ck, "element")
    T, j = w.T, w.j
    optc = T.variants(w.shape)[[v["n"] for v in T.variants(w.shape)].index("Connector")]["f"][0][1]
    lab = inp("label", w.str)
    shapes = [("None", w.sh("None")), ("Box", w.sh("Box", lab)), ("Circle", w.sh("Circle", lab)), ("DoubleCircle", w.sh("DoubleCircle", lab)),
              ("Connector", w.sh("Connector", T.option(optc, None))), ("Connector with label", w.sh("Connector", T.option(optc, lab)))]
    for (name, sh), orient, debug in itertools.product(shapes, ("TopToBottom", "LeftToRight"), (False, True)):
        el = w.element("n", sh, orient)
        P = w.parts(T.get(el, "pos"))
        look, prop = T.get(el, "look"), T.get(el, "properties")
        ps = w.run(EL + "render", [("ref", el), Bool(debug), ("ref", mk("app", "backend"))])
        what = "%s, %s%s" % (name, orient, ", debug" if debug else "")
        site = "std_shapes/render.rs Element::render"
        if ps is None:
            ck.undecided("element:cut", what)
            continue
        for s in w.panics:
            j.say(Path(None, s[0], None), "panic", False, "drawing fails: %s at %s" % s[1:], what, site)
        center = op2(fadd, P["middle"], P["center"])
        corner = op2(fsubt, P["middle"], (fmul(P["size"][0], .5), fmul(P["size"][1], .5)))
        txt = ("draw_text", center, lab, look)
        want = {"None": [], "Box": [("draw_rect", corner, P["size"], look, prop), txt],
                "Circle": [("draw_circle", center, P["size"], look, prop), txt],
                "DoubleCircle": [("draw_circle", center, P["size"], look, prop), ("draw_circle", center, None, look, "none"), txt],
                "Connector": [], "Connector with label": [("draw_text", P["middle"], lab, look)]}[name]
        for p in ps:
            got = w.calls(p)

            def match(c, x):
                if c[0] != x[0]:
                    return False
                a = c[1]
                if x[0] == "draw_text":
                    return all3((w.peq(p, a[0], *x[1]), j.same(p, a[1], x[2]), j.same(p, a[2], x[3])))
                r = [w.peq(p, a[0], *x[1])]
                if x[2] is not None:
                    r.append(w.peq(p, a[1], *x[2]))
                else:
                    # the inner circle: smaller than the outer one, in both directions by the same amount
                    g = w.xy(a[1])

                    def inner(val):
                        S_, G_ = [val(t) for t in P["size"]], [val(t) for t in g]
                        if min(S_) < 40:
                            raise NoValue()
                        return all(0 < y < x for x, y in zip(S_, G_))
                    r.append(sampled(p, inner, lambda t: True, n=30))
                r.append(j.same(p, a[2], x[3]))
                r.append(a[3].k == "agg" and a[3].a[1] == 0 if isinstance(x[4], str) else j.same(p, a[3], x[4]))
                if x[0] == "draw_rect":
                    r.append(a[4].k == "agg" and a[4].a[1] == 0)
                return all3(r)
            if not debug:
                j.say(p, "calls", [c[0] for c in got] == [x[0] for x in want], "drawn: %s instead of %s" % ([c[0] for c in got], [x[0] for x in want]), what, site)
                for c, x in zip(got, want):
                    j.say(p, x[0], match(c, x), "%s does not get the position, size, look, label or properties of the element" % x[0], what, site)
            else:
                # the calls are there, in order, among the markers
                k = 0
                for c in got:
                    if k < len(want) and match(c, want[k]) is True:
                        k += 1
                    elif c[0] in ("draw_text", "draw_arrow"):
                        k = -99
                j.say(p, "debug calls", k == len(want) or None, "with debug markers, the shape is not drawn as without", what, site)


# ------------------------------------------------------------------ V07
def run_arrow(ck):
    """what render_arrow draws"""
    w = SWorld(ck, "arrow")
    T, j = w.T, w.j
    fa = {n: t for n, t in T.variants(w.arrow)[0]["f"]}
    optc = T.variants(w.shape)[[v["n"] for v in T.variants(w.shape)].index("Connector")]["f"][0][1]
    h_con = ck.fn(EL + "get_connector_location")
    h_pass = ck.fn(EL + "get_passthrough_path")
    site = "std_shapes/render.rs render_arrow"

    def rec(kind):
        def h(e, st, a, ty, ctx):
            l = st.mon.get("s:conn")
            l = tuple(l.a) if l is not None else ()
            n = "%s%d" % (kind, len(l))
            st.mon["s:conn"] = mk("lst", *l, tup(Lit(kind), e.snap(st, a[0]), *[e.snap(st, x) for x in a[1:]]))
            return tup(w.pt(n + ".loc"), w.pt(n + ".ctl"))
        return h
    hs = {h_con.n: rec("con"), h_pass.n: rec("pass")}
    items = []
    for k in (2, 3, 4, 5):
        for ls in [v["n"] for v in T.variants(fa["line_style"])]:
            for s, t in itertools.product([v["n"] for v in T.variants(fa["start"])], repeat=2):
                for debug in (False, True):
                    items.append((k, ls, s, t, debug))

    def one(ck, it):
        k, ls, s, t, debug = it
        what = "%d elements, %s, heads %s %s%s" % (k, ls, s, t, ", debug" if debug else "")
        els = []
        for i in range(k):
            sh = w.sh("Box", inp("l%d" % i, w.str)) if i in (0, k - 1) else w.sh("Connector", T.option(optc, None))
            els.append(w.element("n%d" % i, sh))
        d = {n: inp("e.%s" % n, ty) for n, ty in fa.items()}
        d["line_style"] = T.make(fa["line_style"], [], ls)
        d["start"], d["end"] = T.make(fa["start"], [], s), T.make(fa["end"], [], t)
        arrow = T.make(w.arrow, d)
        ps = w.run(RD + "render_arrow", [("ref", mk("app", "backend")), Bool(debug), ("ref", vec(els)), ("ref", arrow)], hs)
        if ps is None:
            return ck.undecided("arrow:cut", what)
        for x in w.panics:
            j.say(Path(None, x[0], None), "panic", False, "drawing fails: %s at %s" % x[1:], what, site)
        for p in ps:
            got = [c for c in w.calls(p) if c[0] in ("draw_arrow", "draw_text", "draw_rect")]
            if ls == "None":
                j.say(p, "invisible", not got, "an arrow without line is drawn", what, site)
                continue
            if not j.say(p, "one", [c[0] for c in got] == ["draw_arrow"], "drawn: %s" % [c[0] for c in got], what, site):
                if [c[0] for c in got] != ["draw_arrow"]:
                    continue
            path, dash, head, look, prop, text = got[0][1]
            j.say(p, "dash", j.same(p, dash, Bool(ls != "Normal")), "dashed is %s" % show(dash), what, site)
            j.say(p, "heads", all3((j.same(p, head.a[2][0], Bool(s == "Arrow")), j.same(p, head.a[2][1], Bool(t == "Arrow")))) if head.k == "agg" else None, "heads are %s" % show(head), what, site)
            j.say(p, "look", j.same(p, look, d["look"]), "not the look of the arrow", what, site)
            j.say(p, "properties", j.same(p, prop, d["properties"]), "not the properties of the arrow", what, site)
            j.say(p, "text", j.same(p, text, d["text"]), "not the text of the arrow", what, site)
            b, u, segs = list_parts(path)
            l = p.st.mon.get("s:conn")
            conn = [] if l is None else [list(c.a[2]) if c.k == "agg" else list(c.a) for c in l.a]
            j.say(p, "segments", b is None and len(segs) == k or (None if b is not None else False), "the path has %d points for %d elements" % (len(segs), k), what, site)
            if b is not None or len(segs) != k:
                continue
            # every point of the path must be one that was computed for its element
            names = {}
            for i, c in enumerate(conn):
                names["%s%d" % (str_const(c[0]), i)] = c

            def origin(v):
                x = T.get(v, "x") if v.k == "agg" else v
                return x.a[0].rsplit(".", 2) if x.k == "in" else None
            exits = []
            for i, sg in enumerate(segs):
                o = [origin(x) for x in sg.a[2]]
                wantk = ("loc", "ctl") if i == 0 else ("ctl", "loc")
                if None in o or o[0][0] != o[1][0] or o[0][0] not in names:
                    j.say(p, "points", None, "the points are not those of the elements", what, site)
                    break
                c = names[o[0][0]]
                kind = str_const(c[0])
                j.say(p, "order of points", (o[0][1], o[1][1]) == wantk, "point and control point are swapped", what, site)
                j.say(p, "element of point", all3(((kind == "con") == (i in (0, k - 1)), j.same(p, c[1], els[i]))), "point %d is not of element %d" % (i, i), what, site)
                j.say(p, "whole point", all(w.pteq(p, x, w.pt("%s.%s" % (o[0][0], n))) for x, n in zip(sg.a[2], wantk)), "x or y of a point is lost", what, site)
                exits.append(o[0][0])
                if kind == "con":
                    j.say(p, "port", j.same(p, c[4], d["src_port" if i == 0 else "dst_port"]), "the %s point is not at its port" % ("first" if i == 0 else "last"), what, site)
                ctr = lambda e_: op2(fadd, w.parts(T.get(e_, "pos"))["middle"], w.parts(T.get(e_, "pos"))["center"])
                if i == 0:
                    j.say(p, "direction", w.peq(p, c[2], *ctr(els[1])), "the arrow does not leave towards the next element", what, site)
                else:
                    j.say(p, "direction", w.pteq(p, c[2], w.pt(exits[i - 1] + ".loc")), "the arrow does not come from the point before", what, site)
                    if kind == "pass" and i + 1 < k:
                        j.say(p, "direction", w.peq(p, c[3], *ctr(els[i + 1])), "the arrow does not leave towards the next element", what, site)
    parallel(ck, items, one)
    ck.extra["arrows"] = len(items)


# ------------------------------------------------------------------ R02
def records(ck):
    """shapes of nested records: a string is a field, a tuple is an array"""
    f = lambda i: "field" + "x" * (i * 3 % 7) + str(i)
    n = [0]

    def fld():
        n[0] += 1
        return f(n[0])

    def build(s):
        return fld() if s == 0 else tuple(build(x) for x in s)
    shapes = [0, (0,), (0, 0), (0, 0, 0), ((0, 0),), (0, (0, 0)), ((0, 0), 0), ((0, 0), (0, 0)), (0, (0, (0, 0)), 0), ((0, (0, 0), 0), (0,)), (0, 0, 0, 0, 0, 0),
              ((((0, 0), 0), 0), 0), (((0,),),), (0, (0, (0, (0, 0, 0))))]
    if ck.thorough:
        def all_(d):
            yield 0
            if d:
                sub = list(all_(d - 1))
                for k in (1, 2, 3):
                    for c in itertools.islice(itertools.product(sub, repeat=k), 40):
                        yield tuple(c)
        shapes += [x for x in all_(2) if x not in shapes]
    for s in shapes:
        n[0] = 0
        yield build(s)


def run_records(ck):
    w = SWorld(ck, "record")
    T, j = w.T, w.j
    site = "std_shapes/render.rs render_record"
    optp = [t for v in T.variants(w.rec) if v["n"] == "Text" for n, t in v["f"]][1]

    def mkrec(s):
        if isinstance(s, str):
            return T.make(w.rec, [Lit(s), T.option(optp, Lit(port_of(s)))], "Text")
        return T.make(w.rec, [vec([mkrec(x) for x in s])], "Array")

    def port_of(s):
        # names that begin and end with each other's, in both orders, and differ in case
        k = int(s.lstrip("fieldx"))
        return ["in", "in2", "IN", "in22", "n", "i", "2", "in2n", "i2", "In"][k - 1] if k <= 10 else "p%d" % k

    def leaves_(s):
        return [s] if isinstance(s, str) else [y for x in s for y in leaves_(x)]

    def box_h(e, st, a, ty, ctx):
        st.mon["s:conn"] = tup(e.snap(st, a[0]), e.snap(st, a[1]))
        return tup(w.pt("con.loc"), w.pt("con.ctl"))

    def one(ck, it):
        s, orient, rounded, debug = it
        fs = Int(15)
        look = w.look("look", font_size=fs, rounded=Int(rounded))
        el = w.element("n", w.sh("Record", mkrec(s)), orient, look=look)
        P = w.parts(T.get(el, "pos"))
        center = op2(fadd, P["middle"], P["center"])
        what = "%s, %s%s" % (s, orient, ", rounded" if rounded else "")
        ps = w.run(EL + "render", [("ref", el), Bool(debug), ("ref", mk("app", "backend"))])
        if ps is None:
            return ck.undecided("record:cut", what)
        for x in w.panics:
            j.say(Path(None, x[0], None), "panic", False, "drawing fails: %s at %s" % x[1:], what, site)
        boxes = None
        for p in ps:
            got = w.calls(p)
            clip = [c for c in got if c[0] == "create_clip"]
            j.say(p, "clip", len(clip) == (1 if rounded else 0), "a clip is created for a record with square corners, or none for a rounded one", what, site)
            corner = op2(fsubt, center, (fmul(P["size"][0], .5), fmul(P["size"][1], .5)))
            if clip and rounded:
                j.say(p, "clip region", all3((w.peq(p, clip[0][1][0], *corner), w.peq(p, clip[0][1][1], *P["size"]))), "the clip is not the outline of the record", what, site)
            seq = [c for c in got if c[0] in ("draw_rect", "draw_text")]
            pos = [0]
            boxes = {}
            bad = []

            def rect(c):
                """(left, top, width, height) of a rectangle as terms"""
                return w.xy(c[1][0]) + w.xy(c[1][1])

            def walk(n, axis, outer):
                """n: the field or array; outer: the rectangle it must fill in the other direction; returns its rectangle"""
                if pos[0] >= len(seq) or seq[pos[0]][0] != "draw_rect":
                    bad.append("no box for %s" % (n,))
                    return None
                c = seq[pos[0]]
                pos[0] += 1
                r = rect(c)
                j.say(p, "box clip", j.same(p, c[1][4].a[2][0], inp("clip")) if rounded and c[1][4].k == "agg" and c[1][4].a[1] == 1 else (c[1][4].k == "agg" and (c[1][4].a[1] == 1) == bool(rounded)),
                      "a box inside the record is not clipped to its outline", what, site)
                j.say(p, "box corners", j.same(p, T.get(c[1][2], "rounded"), Int(0)), "a box inside the record has round corners", what, site)
                for fld in ("fill_color", "line_color", "line_width"):
                    j.say(p, "box look", j.same(p, T.get(c[1][2], fld), T.get(look, fld)), "a box has another %s than the record" % fld, what, site)
                if isinstance(n, str):
                    if pos[0] >= len(seq) or seq[pos[0]][0] != "draw_text":
                        bad.append("no text for %s" % n)
                        return r
                    t = seq[pos[0]]
                    pos[0] += 1
                    boxes[n] = r
                    mid = fadd(r[0], fmul(r[2], .5)), fadd(r[1], fmul(r[3], .5))
                    j.say(p, "text", all3((j.same(p, t[1][1], Lit(n)), w.peq(p, t[1][0], *mid))), "the text of %s is not in the middle of its box" % n, what, site)
                    j.say(p, "text look", j.same(p, T.get(t[1][2], "font_size"), fs), "the text has another font size than the record", what, site)
                    return r
                at, end = r[axis], fadd(r[axis], r[2 + axis])
                for k, ch in enumerate(n):
                    q = walk(ch, 1 - axis, r)
                    if q is None:
                        return r
                    j.say(p, "tiles", numsame(p, q[axis], at), "field %d of %s does not begin where the one before ends" % (k, n), what, site)
                    j.say(p, "fills", all3((numsame(p, q[1 - axis], r[1 - axis]), numsame(p, q[3 - axis], r[3 - axis]))), "a field of %s is not as high or wide as the record" % (n,), what, site)
                    c0, d = flin(q[2 + axis])
                    j.say(p, "extent", True if c0 >= 0 and d and all(v > 0 for v in d.values()) else False if all(v <= 0 for v in d.values()) and c0 <= 0 else None, "a field of %s has no extent" % (n,), what, site)
                    at = fadd(at, q[2 + axis])
                j.say(p, "tiles", numsame(p, at, end), "the fields of %s do not fill it" % (n,), what, site)
                return r
            if debug:
                seq = seq[1:]
            r = walk(s, 0 if orient == "LeftToRight" else 1, None)
            if bad:
                j.say(p, "fields", False, bad[0], what, site)
                continue
            if r is not None:
                j.say(p, "outer box", all3((numsame(p, r[0], corner[0]), numsame(p, r[1], corner[1]), numsame(p, r[2], P["size"][0]), numsame(p, r[3], P["size"][1]))), "the outer box is not the element", what, site)
            rest = seq[pos[0]:]
            j.say(p, "outline", [c[0] for c in rest] == ["draw_rect"], "after the fields, %s is drawn" % [c[0] for c in rest], what, site)
            if [c[0] for c in rest] == ["draw_rect"]:
                c = rest[0]
                j.say(p, "outline box", all3((w.peq(p, c[1][0], *corner), w.peq(p, c[1][1], *P["size"]), c[1][4].k == "agg" and c[1][4].a[1] == 0)), "the outline is not the element", what, site)
                lk = c[1][2]
                j.say(p, "outline look", all3([j.same(p, T.get(lk, x), T.get(look, x)) for x in ("line_color", "line_width", "rounded")] + [T.get(lk, "fill_color").k == "agg" and T.get(lk, "fill_color").a[1] == 0]),
                      "the outline is filled, or has another line than the record", what, site)
        if debug or boxes is None or len(ps) != 1:
            return
        # ports
        for port in [None, "nowhere"] + leaves_(s):
            ps = w.run(EL + "get_connector_location", [("ref", el), w.pt("from"), inp("force", w.num), ("ref", T.option(optp, None if port is None else Lit(port if port == "nowhere" else port_of(port))))],
                       {"layout::core::geometry::get_connection_point_for_box": box_h})
            if ps is None:
                ck.undecided("record:cut", what)
                continue
            for p in ps:
                g = p.st.mon.get("s:conn")
                if g is None:
                    ck.undecided("record:port", "no connection point is computed in %s" % what)
                    continue
                g = g.a[2] if g.k == "agg" else g.a
                if port is None or port == "nowhere":
                    r = corner[0], corner[1], P["size"][0], P["size"][1]
                else:
                    r = boxes[port]
                mid = fadd(r[0], fmul(r[2], .5)), fadd(r[1], fmul(r[3], .5))
                j.say(p, "port", all3((w.peq(p, g[0], *mid), w.peq(p, g[1], r[2], r[3]))), "an edge at port %s is not tied to the box of that field" % port, what, site)
    items = [(s, o, r, d) for s in records(ck) for o in ("TopToBottom", "LeftToRight") for r, d in ((0, False), (15, False), (0, True))]
    parallel(ck, items, one)
    ck.extra["records"] = len(items)


# ------------------------------------------------------------------ A01
def run_reverse(ck):
    """Arrow::reverse, the constructors of arrows and elements"""
    w = SWorld(ck, "arrow")
    T, j = w.T, w.j
    site = "std_shapes/shapes.rs"
    SH = "layout::std_shapes::shapes::"
    fa = {n: t for n, t in T.variants(w.arrow)[0]["f"]}
    fe = {n: t for n, t in T.variants(w.elem)[0]["f"]}
    other = {"start": "end", "end": "start", "src_port": "dst_port", "dst_port": "src_port"}
    d = {n: inp("e.%s" % n, ty) for n, ty in fa.items()}

    def val(p):
        v = p.ret
        while v.k == "ref":
            v = p.e.loadref(p.st, v)
        return v

    def one(name, args, want, cls=None):
        """want: field -> value, or function of path and value"""
        ps = w.run(SH + name, args)
        if ps is None:
            return ck.undecided("%s:cut" % name, name)
        for x in w.panics:
            j.say(Path(None, x[0], None), "panic", False, "%s fails: %s at %s" % ((name,) + x[1:]), name, site)
        for p in ps:
            v = val(p)
            for fld, x in want.items():
                g = p.e.snap(p.st, T.get(v, fld))
                j.say(p, name, x(p, g) if callable(x) else j.same(p, g, x), "%s: %s is %s" % (name, fld, show(g)[:80]), "%s %s" % (name, fld), site)
    for s, e in itertools.product([v["n"] for v in T.variants(fa["start"])] + [None], repeat=2):
        dd = dict(d)
        if s:
            dd["start"] = T.make(fa["start"], [], s)
        if e:
            dd["end"] = T.make(fa["end"], [], e)
        one("Arrow::reverse", [("ref", T.make(w.arrow, dd))], {n: dd[other.get(n, n)] for n in fa})
    none = lambda p, v: v.k == "agg" and v.a[1] == 0
    one("Arrow::new", [d["start"], d["end"], d["line_style"], ("ref", d["text"]), ("ref", d["look"]), ("ref", d["src_port"]), ("ref", d["dst_port"])],
        {n: (none if n == "properties" else d[n]) for n in fa})
    is_ = lambda v: (lambda p, g: g.k == "agg" and T.variant_name(g) == v or (None if g.k != "agg" else False))
    one("Arrow::simple", [("ref", d["text"])], {"start": is_("None"), "end": is_("Arrow"), "line_style": is_("Normal"), "text": d["text"], "properties": none, "src_port": none, "dst_port": none})
    one("Arrow::invisible", [], {"line_style": is_("None"), "start": is_("None"), "end": is_("None"), "properties": none})
    lab, shp, look, ori, size = inp("label", w.str), inp("shape", w.shape), inp("look", w.look_t), inp("orientation", w.orient), w.pt("size")

    def posw(pred):
        return lambda p, g: pred(p, w.parts(g)) if g.k == "agg" else None
    z = lambda p, xy: all3((numsame(p, xy[0], FLT(0)), numsame(p, xy[1], FLT(0))))
    sz = lambda p, P: all3((numsame(p, P["size"][0], w.xy(size)[0]), numsame(p, P["size"][1], w.xy(size)[1])))
    one("Element::create", [shp, look, ori, size], {"shape": shp, "look": look, "orientation": ori, "properties": none, "pos": posw(lambda p, P: all3((sz(p, P), z(p, P["center"]))))})

    def conn(p, g):
        """a connector with the label, or without when it is empty"""
        if g.k != "agg" or T.variant_name(g) != "Connector":
            return False if g.k == "agg" else None
        o = g.a[2][0]
        if o.k != "agg":
            return None
        empty = p.e.decide(p.st, p.e.streq(lab, Lit("")))
        if empty is None:
            empty = p.e.decide(p.st, eq(p.e.strlen(lab), Int(0)))
        if o.a[1] == 0:
            return empty
        return all3((None if empty is None else not empty, j.same(p, o.a[2][0], lab)))
    one("Element::create_connector", [("ref", lab), ("ref", look), ori], {"shape": conn, "look": look, "orientation": ori, "properties": none})
    one("Element::empty_connector", [ori], {"shape": lambda p, g: g.k == "agg" and T.variant_name(g) == "Connector" and g.a[2][0].k == "agg" and g.a[2][0].a[1] == 0, "orientation": ori, "properties": none})


# ------------------------------------------------------------------ G01
def run_position(ck):
    """what the methods of Position compute"""
    w = SWorld(ck, "position")
    T, j = w.T, w.j
    site = "core/geometry.rs Position"
    pos = w.pos("p")
    P = w.parts(pos)
    x, d = inp("x", w.num), w.pt("d")
    X, D = x, w.xy(d)
    half = lambda xy: (fmul(xy[0], .5), fmul(xy[1], .5))
    size = {False: P["size"], True: op2(fadd, P["size"], P["halo"])}
    lt_ = {h: op2(fsubt, P["middle"], half(size[h])) for h in size}
    rb = {h: op2(fadd, P["middle"], half(size[h])) for h in size}
    ctr = op2(fadd, P["middle"], P["center"])

    def paths(name, args):
        ps = w.run(POS + name, args)
        if ps is None:
            ck.undecided("position:cut", name)
            return []
        return ps

    def is_pt(p, v, xy):
        return w.peq(p, v, *xy)

    def query(name, args, want):
        if POS + name not in ck.prog().by_name:
            ck.undecided("position:gone", name)
            return
        for p in paths(name, [("ref", pos)] + args):
            j.say(p, name, want(p, p.ret), "%s is %s" % (name, show(p.ret)[:120]), "%s%s" % (name, " with halo" if args and args[0] is Bool(True) else ""), site)
    for h in (False, True):
        b = [Bool(h)]
        query("bbox", b, lambda p, v: all3((is_pt(p, v.a[2][0], lt_[h]), is_pt(p, v.a[2][1], rb[h]))))
        query("size", b, lambda p, v: is_pt(p, v, size[h]))
        query("left", b, lambda p, v: numsame(p, v, lt_[h][0]))
        query("right", b, lambda p, v: numsame(p, v, rb[h][0]))
        query("top", b, lambda p, v: numsame(p, v, lt_[h][1]))
        query("bottom", b, lambda p, v: numsame(p, v, rb[h][1]))
        query("distance_to_left", b, lambda p, v: numsame(p, v, fsubt(ctr[0], lt_[h][0])))
        query("distance_to_right", b, lambda p, v: numsame(p, v, fsubt(rb[h][0], ctr[0])))

        def inx(p, v):
            a, b_ = inp("r.lo", w.num), inp("r.hi", w.num)

            def f(val):
                return (val(lt_[h][0]) >= val(a) and val(rb[h][0]) <= val(b_)) == bool(val(v) if v.k == "int" else holds(v, {}, lambda t: val(t)))
            return sampled(p, f, n=40)
        query("in_x_range", [tup(inp("r.lo", w.num), inp("r.hi", w.num)), Bool(h)], inx)
    query("center", [], lambda p, v: is_pt(p, v, ctr))
    query("middle", [], lambda p, v: is_pt(p, v, P["middle"]))

    def update(name, args, want, keep=("size", "center", "halo"), what=""):
        if POS + name not in ck.prog().by_name:
            ck.undecided("position:gone", name)
            return
        for p in paths(name, [("ref", pos)] + args):
            v = p.val("a0")
            if v.k != "agg":
                ck.undecided("position:value", name)
                continue
            Q = w.parts(v)
            for k in keep:
                j.say(p, name, all3(numsame(p, a, b) for a, b in zip(Q[k], P[k])), "%s changes the %s" % (name, k), name + what, site)
            j.say(p, name, want(p, Q), "%s%s leaves the position at %s" % (name, what, show(v)[:200]), name + what, site)
    c = lambda Q: op2(fadd, Q["middle"], Q["center"])
    full = lambda Q: op2(fadd, Q["size"], Q["halo"])
    left = lambda Q: op2(fsubt, Q["middle"], half(full(Q)))
    right = lambda Q: op2(fadd, Q["middle"], half(full(Q)))
    same2 = lambda p, a, b: all3((numsame(p, a[0], b[0]), numsame(p, a[1], b[1])))
    update("move_to", [d], lambda p, Q: same2(p, c(Q), D))
    update("translate", [d], lambda p, Q: same2(p, c(Q), op2(fadd, ctr, D)))
    update("set_x", [x], lambda p, Q: all3((numsame(p, c(Q)[0], X), numsame(p, Q["middle"][1], P["middle"][1]))))
    update("set_y", [x], lambda p, Q: all3((numsame(p, c(Q)[1], X), numsame(p, Q["middle"][0], P["middle"][0]))))
    update("align_to_top", [x], lambda p, Q: all3((numsame(p, left(Q)[1], X), numsame(p, Q["middle"][0], P["middle"][0]))))
    update("align_to_left", [x], lambda p, Q: all3((numsame(p, left(Q)[0], X), numsame(p, Q["middle"][1], P["middle"][1]))))
    update("align_to_right", [x], lambda p, Q: all3((numsame(p, right(Q)[0], X), numsame(p, Q["middle"][1], P["middle"][1]))))
    update("align_x", [x, Bool(True)], lambda p, Q: all3((numsame(p, left(Q)[0], X), numsame(p, Q["middle"][1], P["middle"][1]))), what=" to the left")
    update("align_x", [x, Bool(False)], lambda p, Q: all3((numsame(p, right(Q)[0], X), numsame(p, Q["middle"][1], P["middle"][1]))), what=" to the right")
    update("set_size", [d], lambda p, Q: same2(p, Q["size"], D), keep=("middle", "center", "halo"))
    update("set_new_center_point", [d], lambda p, Q: same2(p, Q["center"], D), keep=("middle", "size", "halo"))
    update("transpose", [], lambda p, Q: all3(same2(p, Q[k], P[k][::-1]) for k in Q), keep=())
    # the element: transposing turns the orientation as well
    el = "<layout::std_shapes::shapes::Element as layout::core::format::Visible>::transpose"
    for o in ("TopToBottom", "LeftToRight"):
        e0 = w.element("n", inp("shape", w.shape), o)
        ps = w.run(el, [("ref", e0)])
        for p in ps or []:
            v = p.val("a0")
            Q, R = w.parts(T.get(v, "pos")), w.parts(T.get(e0, "pos"))
            j.say(p, "element transpose", all3([same2(p, Q[k], R[k][::-1]) for k in Q]), "transposing an element does not swap its coordinates", o, site)
            o2 = T.get(v, "orientation")
            j.say(p, "element transpose", o2.k == "agg" and T.variant_name(o2) != o, "transposing an element leaves its orientation", o, site)
            j.say(p, "element transpose", all3(j.same(p, T.get(v, k), T.get(e0, k)) for k in ("shape", "look", "properties")), "transposing an element changes its shape, look or properties", o, site)
    # boxes that overlap
    b1, b2 = [tup(w.pt(n + "0"), w.pt(n + "1")) for n in ("a", "b")]
    ps = w.run("layout::core::geometry::do_boxes_intersect", [b1, b2])
    for p in ps or []:
        def f(val):
            g = lambda b, i, k: val(w.xy(b.a[2][i])[k])
            o = all(g(b2, 0, k) < g(b1, 1, k) and g(b1, 0, k) < g(b2, 1, k) for k in (0, 1))
            return o == bool(val(p.ret) if p.ret.k == "int" else holds(p.ret, {}, lambda t: val(t)))
        j.say(p, "do_boxes_intersect", sampled(p, f, n=60), "do_boxes_intersect is wrong", "", "core/geometry.rs")


# ------------------------------------------------------------------ G02
TEXTS = ["", "a", "abc", "a\nb", "abc\nde\nf", "\n", "a\n", "\nabc", "wide line here\nx", "h\u00e9llo", "\u65e5\u672c\u8a9e", "tab\there", "\n\n", "x" * 60, "ab    \ncd", "    ab\nc", "   ", "a\tb  ", "ab\ncdefgh\nijk", "abcdef\n\nx", "\u00a0\u00a0x", "WWW iii", "...", "a  b"]


def run_sizes(ck):
    """shapes are at least as large as their text"""
    w = SWorld(ck, "size")
    T, j = w.T, w.j
    site = "std_shapes/render.rs get_shape_size"
    font = inp("font", None)
    optc = T.variants(w.shape)[[v["n"] for v in T.variants(w.shape)].index("Connector")]["f"][0][1]
    optp = [t for v in T.variants(w.rec) if v["n"] == "Text" for n, t in v["f"]][1]

    def ref_size(s):
        l = s.split("\n")
        if l and l[-1] == "":
            l.pop()
        return max([1] + [len(x) for x in l]), max(1, len(l))

    def coef(p, t):
        """(constant, coefficient of the font size)"""
        c, d = flin(t)
        if any(a is not mk("op", "i2f", font) for a in d):
            return None
        return c, d.get(mk("op", "i2f", font), 0)

    def geq(p, t, k):
        """t >= k * font for every font size >= 0"""
        c = coef(p, t)
        return None if c is None else c[0] >= 0 and c[1] >= k

    def rec_size(r, horiz):
        """least size of a record: fields side by side"""
        if isinstance(r, str):
            return ref_size(r)
        l = [rec_size(x, not horiz) for x in r]
        return (sum(x for x, y in l), max(y for x, y in l)) if horiz else (max(x for x, y in l), sum(y for x, y in l))

    def mkrec(s):
        if isinstance(s, str):
            return T.make(w.rec, [Lit(s), T.option(optp, None)], "Text")
        return T.make(w.rec, [vec([mkrec(x) for x in s])], "Array")
    for s in TEXTS:
        for p in w.run("layout::core::geometry::get_size_for_str", [("ref", Lit(s)), font]) or []:
            x, y = [coef(p, t) for t in w.xy(p.ret)]
            rx, ry = ref_size(s)
            j.say(p, "text", None if x is None or y is None else x == (0, rx) and y == (0, ry), "the size of the text is %s" % show(p.ret)[:100], repr(s), "core/geometry.rs get_size_for_str")
    items = []
    for s in TEXTS:
        for k in ("Box", "Circle", "DoubleCircle", "Connector"):
            items.append((k, s))
    for r in records(ck):
        items.append(("Record", r))
    for (k, s), orient, square in itertools.product(items, ("TopToBottom", "LeftToRight"), (False, True)):
        if k == "Connector" and square:
            continue
        horiz = orient == "LeftToRight"
        sh = w.sh("Record", mkrec(s)) if k == "Record" else w.sh(k, T.option(optc, Lit(s))) if k == "Connector" else w.sh(k, Lit(s))
        want = rec_size(s, horiz) if k == "Record" else ref_size(s)
        what = "%s %r, %s%s" % (k, s, orient, ", square" if square else "")
        ps = w.run(RD + "get_shape_size", [T.make(w.orient, [], orient), ("ref", sh), Int(15) if k == "Record" or square else font, Bool(square)], time=10)
        if ps is None:
            ck.undecided("size:cut", what)
            continue
        for x in w.panics:
            j.say(Path(None, x[0], None), "panic", False, "the size fails: %s at %s" % x[1:], what, site)
        for p in ps:
            x, y = w.xy(p.ret)
            if k == "Record" or square:
                cx, cy = flin(x), flin(y)
                ok = None if cx[1] or cy[1] else cx[0] >= 15 * want[0] and cy[0] >= 15 * want[1]
                if square and ok:
                    ok = cx[0] == cy[0]
            else:
                ok = all3((geq(p, x, want[0]), geq(p, y, want[1])))
            j.say(p, k, ok, "the shape is smaller than its text, or not square: %s" % show(p.ret)[:100], what, site)


# ------------------------------------------------------------------ G03
def run_outline(ck):
    """arrows touch the outline of the shape they end at"""
    w = SWorld(ck, "outline")
    T, j = w.T, w.j
    G = "layout::core::geometry::"
    site = "core/geometry.rs get_connection_point_for_"
    loc, size, frm, force = w.pt("loc"), w.pt("size"), w.pt("from"), inp("force", w.num)
    L, S, F = w.xy(loc), w.xy(size), w.xy(frm)
    pos = lambda a: a.k == "in" and (a.a[0].startswith("size") or a.a[0] == "force")
    eps = 1e-5
    for kind in ("box", "circle"):
        name = G + "get_connection_point_for_" + kind
        cap = []

        def h(e, st, a, ty, ctx):
            st.mon["s:conn"] = tup(*[e.snap(st, x) for x in a])
            return tup(a[0], w.pt("ctl"))
        ps = w.run(name, [loc, size, frm, force], {G + "create_vector_of_length": h})
        if ps is None:
            ck.undecided("outline:cut", kind)
            continue
        for p in ps:
            v = p.ret
            if v.k != "agg" or v.a[2][0].k != "agg":
                ck.undecided("outline:value", kind)
                continue
            x, y = w.xy(v.a[2][0])

            def on(val):
                sx, sy = val(S[0]), val(S[1])
                if sx <= 1 or sy <= 1:
                    raise NoValue()
                dx, dy = float(val(x) - val(L[0])), float(val(y) - val(L[1]))
                a, b = float(sx) / 2, float(sy) / 2
                if kind == "box":
                    return abs(dx) <= a + eps and abs(dy) <= b + eps and (abs(abs(dx) - a) < eps or abs(abs(dy) - b) < eps)
                return abs(dx * dx / a / a + dy * dy / b / b - 1) < 1e-3

            def side(val):
                sx, sy = val(S[0]), val(S[1])
                fx, fy = val(F[0]) - val(L[0]), val(F[1]) - val(L[1])
                if sx <= 1 or sy <= 1 or abs(2 * fx) <= sx and abs(2 * fy) <= sy:
                    raise NoValue()
                dx, dy = val(x) - val(L[0]), val(y) - val(L[1])
                return float(dx * fx + dy * fy) >= -eps and (kind == "box" or abs(float(dx * fy - dy * fx)) < 1e-2 * (1 + abs(float(fx)) + abs(float(fy))))

            def half(val):
                sx, sy = val(S[0]), val(S[1])
                fx, fy = val(F[0]) - val(L[0]), val(F[1]) - val(L[1])
                if sx <= 1 or sy <= 1 or abs(2 * fx) <= sx and abs(2 * fy) <= sy:
                    raise NoValue()
                dx, dy = val(x) - val(L[0]), val(y) - val(L[1])
                return float(dx * fx) >= -eps and float(dy * fy) >= -eps
            small = lambda a: (2, 12) if a.k == "in" and a.a[0].startswith("size") else (1, 30) if a.k == "in" and a.a[0] == "force" else None

            def smp(fn, outside=True):
                r = sampled(p, fn, pos, n=80)
                if r is None:
                    r = drawn(p, fn, lo=-9, hi=9, special=small)
                if r is None and drawn(p, lambda val: val(S[0]) > 1 and val(S[1]) > 1 and (not outside or 2 * abs(val(F[0]) - val(L[0])) > val(S[0]) or 2 * abs(val(F[1]) - val(L[1])) > val(S[1])) or nov(), lo=-9, hi=9, n=1, special=small) is None:
                    return True         # no inputs lead here
                return r
            j.say(p, kind + " half", smp(half), "the end of the arrow is in the half of the shape that looks away from where it comes from", kind, site + kind)
            j.say(p, kind, smp(on, False), "the end of the arrow is not on the outline of the shape", kind, site + kind)
            j.say(p, kind + " side", smp(side), "the end of the arrow is on the side that looks away from where it comes from", kind, site + kind)
            g = p.st.mon.get("s:conn")
            if g is not None:
                g = g.a[2] if g.k == "agg" else g.a
                j.say(p, kind + " control", all3((w.pteq(p, g[0], v.a[2][0]), w.pteq(p, g[1], frm), numsame(p, g[2], force))), "the control point is not computed towards where the arrow comes from", kind, site + kind)
    # the control point: in the direction of the target, at the distance asked for
    a, b = w.pt("a"), w.pt("b")
    for p in w.run(G + "create_vector_of_length", [a, b, force]) or []:
        v = p.ret
        if v.k != "agg":
            continue
        c = w.xy(v.a[2][1])

        def dist(val):
            f = val(force)
            if f <= 0:
                raise NoValue()
            dx, dy = float(val(c[0]) - val(w.xy(a)[0])), float(val(c[1]) - val(w.xy(a)[1]))
            tx, ty = float(val(w.xy(b)[0]) - val(w.xy(a)[0])), float(val(w.xy(b)[1]) - val(w.xy(a)[1]))
            return abs((dx * dx + dy * dy) ** .5 - float(f)) < 1e-2 and dx * tx + dy * ty >= 0 and abs(dx * ty - dy * tx) < 1e-2 * (1 + abs(tx) + abs(ty))
        j.say(p, "vector", all3((w.pteq(p, v.a[2][0], a), sampled(p, dist, pos, n=60))), "the vector does not start at its point, or has another length or direction", "", "core/geometry.rs create_vector_of_length")
    # which outline an element has
    for kind, orient in itertools.product(("Box", "Circle", "DoubleCircle"), ("TopToBottom", "LeftToRight")):
        el = w.element("n", w.sh(kind, inp("label", w.str)), orient)
        P = w.parts(T.get(el, "pos"))

        def mkh(n):
            def h(e, st, a, ty, ctx):
                st.mon["s:conn"] = tup(Lit(n), *[e.snap(st, x) for x in a])
                return tup(w.pt("con.loc"), w.pt("con.ctl"))
            return h
        hs = {G + "get_connection_point_for_" + n: mkh(n) for n in ("box", "circle")}
        for p in w.run(EL + "get_connector_location", [("ref", el), frm, force, ("ref", inp("port", w.opt_str))], hs) or []:
            g = p.st.mon.get("s:conn")
            if g is None:
                ck.undecided("outline:element", kind)
                continue
            g = g.a[2] if g.k == "agg" else g.a
            j.say(p, "element", all3((str_const(g[0]) == ("box" if kind == "Box" else "circle"), w.peq(p, g[1], *op2(fadd, P["middle"], P["center"])), w.peq(p, g[2], *P["size"]),
                                      w.pteq(p, g[3], frm), numsame(p, g[4], force), w.pteq(p, p.ret.a[2][0], w.pt("con.loc")), w.pteq(p, p.ret.a[2][1], w.pt("con.ctl")))),
                  "an arrow at a %s is not tied to its outline" % kind, "%s, %s" % (kind, orient), "std_shapes/render.rs get_connector_location")


# ------------------------------------------------------------------ G04
def drawn(p, fn, lo=-3, hi=3, n=60, seed=1, special=None, tries=4000):
    """as sampled, on small numbers, where points fall together and on one line often"""
    rnd = random.Random(seed)
    fc = p.st.mon.get("fcmp")
    got = 0
    for i in range(max(n * 60, tries + 2)):
        env = Env()

        def draw(a):
            r = special(a) if special else None
            return Fraction(rnd.randint(lo, hi)) if r is None else Fraction(rnd.randint(*r))
        try:
            if fc is not None and not all(holds(c, env, draw) for c in fc.a):
                continue
            r = fn(lambda t: evalt(t, env, draw))
        except NoValue:
            if i > tries and not got:
                return None
            continue
        got += 1
        if not r:
            return False
        if got >= n:
            break
    return True if got else None


def run_through(ck):
    """edges pass through the middle of their connectors"""
    w = SWorld(ck, "through")
    T, j = w.T, w.j
    G = "layout::core::geometry::"
    site = "core/geometry.rs get_passthrough_path_invisible"
    size, c, a, b, force = w.pt("size"), w.pt("center"), w.pt("from"), w.pt("to"), inp("force", w.num)
    C, A_, B_ = w.xy(c), w.xy(a), w.xy(b)
    spec = lambda x: (1, 40) if x is force or x.k == "in" and x.a[0].startswith("size") else None
    f = w.ck.fn(G + "get_passthrough_path_invisible")
    ps = w.run(f, [size, c, a, b, force])
    if ps is None:
        ck.undecided("through:cut", "get_passthrough_path_invisible")
        ps = []
    eps = 1e-4
    for s in w.panics:
        q = Path(None, s[0], None)
        if drawn(q, lambda val: True, special=spec, n=3) is True:
            j.say(q, "panic", False, "the path through a connector fails: %s at %s" % s[1:], "", site)
        else:
            ck.ok("through: the path to a panic has no inputs")
    for p in ps:
        v = p.ret
        if v.k != "agg" or v.a[2][0].k != "agg" or v.a[2][1].k != "agg":
            ck.undecided("through:value", "path through a connector")
            continue
        j.say(p, "centre", w.pteq(p, v.a[2][0], c), "the edge does not pass through the middle of the connector", "", site)
        X = w.xy(v.a[2][1])

        def vec(val):
            g = lambda t: float(val(t))
            fo = g(force)
            o = (g(X[0]) - g(C[0]), g(X[1]) - g(C[1]))
            ar = (g(A_[0]) - g(C[0]), g(A_[1]) - g(C[1]))
            rb = (g(C[0]) - g(B_[0]), g(C[1]) - g(B_[1]))
            return fo, o, ar, rb, math.hypot(*ar), math.hypot(*rb)

        def bounded(val):
            fo, o, ar, rb, la, lb = vec(val)
            return math.hypot(*o) <= fo + eps * (1 + fo)

        def general(val):
            fo, o, ar, rb, la, lb = vec(val)
            if la == 0 or lb == 0:
                raise NoValue()
            ua, ub = [x / la * fo for x in ar], [x / lb * fo for x in rb]
            s = math.hypot(ua[0] + ub[0], ua[1] + ub[1])
            if abs(s - 1) < .1:
                raise NoValue()
            if s < 1:
                return abs(math.hypot(*o) - fo) < eps * (1 + fo) and abs(o[0] * ua[0] + o[1] * ua[1]) < eps * (1 + fo * fo)
            r = la / (la + lb)
            if rb[0] == 0 or rb[1] == 0:
                r = 1
            elif ar[0] == 0 or ar[1] == 0:
                r = 0
            return all(abs(o[k] - ((1 - r) * ua[k] + r * ub[k])) < eps * (1 + fo) for k in (0, 1))

        def one_end(val):
            fo, o, ar, rb, la, lb = vec(val)
            if (la == 0) == (lb == 0):
                raise NoValue()
            d = ar if lb == 0 else rb
            # towards where the arrow comes from, or straight on to where it goes
            return o[0] * d[0] + o[1] * d[1] >= -eps
        j.say(p, "bounded", drawn(p, bounded, special=spec), "the control point at a connector is farther off than asked for", "", site)
        j.say(p, "direction", decided(drawn(p, general, special=spec, lo=-4, hi=4, n=120), p, lambda val: vec(val)[4] and vec(val)[5], spec), "the control point at a connector is not between the directions of its two ends, the nearer one first (or not square to an edge that comes back)", "", site)
        j.say(p, "one end", decided(drawn(p, one_end, special=spec), p, lambda val: (vec(val)[4] == 0) != (vec(val)[5] == 0), spec), "an edge that ends in the middle of a connector turns back on itself", "", site)
    # the element hands its own place on
    optc = T.variants(w.shape)[[v["n"] for v in T.variants(w.shape)].index("Connector")]["f"][0][1]
    lab = inp("label", w.str)
    for sh, orient in itertools.product((T.option(optc, None), T.option(optc, lab)), ("TopToBottom", "LeftToRight")):
        el = w.element("n", w.sh("Connector", sh), orient)
        P = w.parts(T.get(el, "pos"))

        def h(e, st, x, ty, ctx):
            st.mon["s:conn"] = tup(*[e.snap(st, y) for y in x])
            return tup(w.pt("con.loc"), w.pt("con.ctl"))
        for p in w.run(EL + "get_passthrough_path", [("ref", el), a, b, force], {f.n: h}) or []:
            g = p.st.mon.get("s:conn")
            if g is None:
                ck.undecided("through:element", orient)
                continue
            g = g.a[2] if g.k == "agg" else g.a
            j.say(p, "element", all3((w.peq(p, g[1], *op2(fadd, P["middle"], P["center"])), w.pteq(p, g[2], a), w.pteq(p, g[3], b), numsame(p, g[4], force),
                                      w.pteq(p, p.ret.a[2][0], w.pt("con.loc")), w.pteq(p, p.ret.a[2][1], w.pt("con.ctl")))),
                  "an edge is not led through the middle of its connector with its own ends", orient, "std_shapes/render.rs get_passthrough_path")


def nov():
    raise NoValue()


def decided(r, p, relevant, spec):
    """a path on which no input is of the kind asked about has nothing to say"""
    if r is None and drawn(p, lambda val: not relevant(val), special=spec, n=20) is True:
        return True
    return r


# ------------------------------------------------------------------ G05
def run_helpers(ck):
    """the geometric primitives"""
    w = SWorld(ck, "helper")
    T, j = w.T, w.j
    G = "layout::core::geometry::"
    a, b, s, t = w.pt("a"), w.pt("b"), inp("s", w.num), inp("t", w.num)
    (ax, ay), (bx, by) = w.xy(a), w.xy(b)
    mul = lambda x, y: mk("fop", "Mul", x, y)
    neg = lambda x: mk("fop", "Neg", x)

    def point(name, args, wx, wy, what):
        if ck.prog().by_name.get(G + name) is None:
            ck.missing.append(name)
            return
        ps = w.run(G + name, args)
        site = "core/geometry.rs " + name
        if not ps:
            ck.undecided("helper:cut", name)
        for p in ps or []:
            j.say(p, name, w.peq(p, p.ret, wx, wy) if p.ret.k == "agg" else None, "%s is not %s" % (name, what), "", site)
    P = lambda n: "Point::" + n
    point(P("zero"), [], FLT(0.), FLT(0.), "the origin")
    point(P("splat"), [s], s, s, "the same number twice")
    point(P("neg"), [("ref", a)], neg(ax), neg(ay), "the opposite vector")
    point(P("add"), [("ref", a), b], fadd(ax, bx), fadd(ay, by), "the sum")
    point(P("sub"), [("ref", a), b], fsubt(ax, bx), fsubt(ay, by), "the difference")
    point(P("scale"), [("ref", a), s], mul(ax, s), mul(ay, s), "the multiple")
    point(P("transpose"), [("ref", a)], ay, ax, "the point with its coordinates exchanged")
    point("interpolate", [a, b, s], fadd(mul(ax, s), mul(bx, fsubt(FLT(1.), s))), fadd(mul(ay, s), mul(by, fsubt(FLT(1.), s))), "the point between the two in the ratio")
    point("make_size_square", [a], mk("fop", "Max", ax, ay), mk("fop", "Max", ax, ay), "the square of the longer side")
    point("pad_shape_scalar", [a, s], fadd(ax, s), fadd(ay, s), "the size and the padding")

    def test(name, args, fn, what, lo=-4, hi=4, special=None, **kw):
        site = "core/geometry.rs " + name
        if ck.prog().by_name.get(G + name) is None:
            ck.missing.append(name)
            return
        ps = w.run(G + name, args, **kw)
        if not ps:
            ck.undecided("helper:cut", name)
        for s_ in w.panics:
            q = Path(None, s_[0], None)
            if drawn(q, lambda val: fn(val, None) is not False, lo=lo, hi=hi, special=special, n=1) is True:
                j.say(q, name + " panic", False, "%s fails: %s at %s" % ((name,) + s_[1:]), "", site)
        for p in ps or []:
            def go(val):
                r = fn(val, p)
                if r is None:
                    raise NoValue()
                return r
            r = drawn(p, go, lo=lo, hi=hi, n=150, special=special)
            if r is None and drawn(p, lambda val: fn(val, None) is not False, lo=lo, hi=hi, n=1, special=special) is not True:
                r = True
            j.say(p, name, r, "%s %s" % (name, what), "", site)

    def any_input(p, lo, hi, special):
        return drawn(p, lambda val: True, lo=lo, hi=hi, n=1, special=special) is True

    # vectors of a length
    def dist(val, p):
        dx, dy = float(val(ax) - val(bx)), float(val(ay) - val(by))
        return p is None or abs(float(val(p.ret)) - math.hypot(dx, dy)) < 1e-6
    test(P("distance_to"), [("ref", a), b], dist, "is not the distance")

    def leng(val, p):
        return p is None or abs(float(val(p.ret)) - math.hypot(float(val(ax)), float(val(ay)))) < 1e-6
    test(P("length"), [("ref", a)], leng, "is not the length")

    def norm(val, p):
        x, y, k = float(val(ax)), float(val(ay)), float(val(s))
        l = math.hypot(x, y)
        if p is None:
            return l > 0
        if l == 0:
            return None
        v = w.xy(p.ret)
        return abs(float(val(v[0])) - x / l * k) < 1e-5 * (1 + k) and abs(float(val(v[1])) - y / l * k) < 1e-5 * (1 + k)
    test("normalize_scale_vector", [a, s], norm, "is not the vector of that length", special=lambda x: (1, 30) if x is s else None)

    def turn(about):
        def f(val, p):
            if p is None:
                return True
            x, y, k = float(val(ax)), float(val(ay)), float(val(s))
            u, v = (float(val(bx)), float(val(by))) if about else (0., 0.)
            c, d = math.cos(k), math.sin(k)
            o = w.xy(p.ret)
            return abs(float(val(o[0])) - (u + (x - u) * c - (y - v) * d)) < 1e-5 and abs(float(val(o[1])) - (v + (x - u) * d + (y - v) * c)) < 1e-5
        return f
    test(P("rotate"), [("ref", a), s], turn(False), "does not turn the vector")
    test(P("rotate_around"), [("ref", a), b, s], turn(True), "does not turn the point")

    # truth of a path that returns a condition
    def truth(val, p):
        if p.ret.k == "int":
            return bool(p.ret.a[0])
        env = Env()
        return holds(p.ret, env, lambda x: val(x))

    def rng(val, p):
        if p is None:
            return True
        return truth(val, p) == (val(s) <= val(t) <= val(ax))
    test("in_range", [tup(s, ax), t], rng, "does not tell what is inside of the range")

    boxes = [w.pt("p1"), w.pt("q1"), w.pt("p2"), w.pt("q2")]

    def over(val, p):
        (x0, y0), (x1, y1), (u0, v0), (u1, v1) = [[val(z) for z in w.xy(q)] for q in boxes]
        if x0 >= x1 or y0 >= y1 or u0 >= u1 or v0 >= v1:
            return None if p is not None else False
        if p is None:
            return True
        return truth(val, p) == (max(x0, u0) < min(x1, u1) and max(y0, v0) < min(y1, v1))
    test("do_boxes_intersect", [tup(boxes[0], boxes[1]), tup(boxes[2], boxes[3])], over, "does not tell whether two boxes overlap", special=lambda x: (0, 6))

    def seg(val, p):
        (x0, y0), (x1, y1), (u0, v0), (u1, v1) = [[val(z) for z in w.xy(q)] for q in boxes]
        if u0 >= u1 or v0 >= v1:
            return None if p is not None else False
        if p is None:
            return True
        r = crossing(x0, y0, x1, y1, u0, v0, u1, v1)
        if r is None or not r and x0 == x1 and u0 <= x0 <= u1:
            return None         # touching, or a vertical line beside the box: either answer
        return truth(val, p) == r
    test("segment_rect_intersection", [tup(boxes[0], boxes[1]), tup(boxes[2], boxes[3])], seg, "does not tell whether the line meets the box", lo=-6, hi=6, special=lambda x: (-3, 3) if x.k == "in" and x.a[0][:2] in ("p2", "q2") else None)

    # the median
    for n in range(1, 5):
        xs = [inp("x%d" % i, w.num) for i in range(n)]
        site = "core/geometry.rs weighted_median"
        if ck.prog().by_name.get(G + "weighted_median") is None:
            ck.missing.append("weighted_median")
            break
        ps = w.run(G + "weighted_median", [("ref", mk_list(None, (), tuple(xs)))], time=40)
        if not ps:
            ck.undecided("helper:cut", "weighted_median of %d" % n)
        vals = list(itertools.product(range(n), repeat=n))

        def inputs(p):
            fc = p.st.mon.get("fcmp")
            for v in vals:
                env = Env((x, Fraction(3 * k)) for x, k in zip(xs, v))
                try:
                    if fc is None or all(holds(c, env, None) for c in fc.a):
                        yield v, env
                except (NoValue, TypeError):
                    yield None, env
        for s_ in w.panics:
            q = Path(None, s_[0], None)
            v = next(inputs(q), None)
            if v is not None and v[0] is not None:
                j.say(q, "weighted_median panic", False, "weighted_median fails: %s at %s" % s_[1:], str(v[0]), site)
        hit = 0
        for p in ps or []:
            for v, env in inputs(p):
                r = None
                if v is not None:
                    u = sorted(3 * k for k in v)
                    hit += 1
                    try:
                        r = abs(float(evalt(p.ret, env, None)) - (u[(n - 1) // 2] + u[n // 2]) / 2) < 1e-6
                    except (NoValue, TypeError):
                        r = None
                j.say(p, "weighted_median", r, "weighted_median is not the median", str(v), site)
        if ps and hit < len(vals):
            ck.undecided("helper:median orders", "%d of %d orders of %d numbers" % (hit, len(vals), n))


def crossing(x0, y0, x1, y1, u0, v0, u1, v1):
    """does the segment meet the inside of the box: True, False, or None when it only touches it"""
    def clip(eps):
        lo, hi = Fraction(0), Fraction(1)
        for p0, p1, a, b in ((x0, x1, u0, u1), (y0, y1, v0, v1)):
            a, b, d = a + eps, b - eps, p1 - p0
            if d == 0:
                if not a <= p0 <= b:
                    return False
                continue
            t0, t1 = sorted(((a - p0) / d, (b - p0) / d))
            lo, hi = max(lo, t0), min(hi, t1)
        return lo <= hi
    inner, outer = clip(Fraction(1, 1000)), clip(Fraction(-1, 1000))
    return inner if inner == outer else None
