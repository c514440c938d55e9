"""B01..B05: what GraphBuilder makes of a statement list, compared with a reference reading of the list"""
import itertools
from terms import *
from core import *
from sym import *
from common import *
from build import *

BN = "gv::builder::GraphBuilder"
KNOWN = ("label", "shape", "color", "style", "fillcolor", "fontsize", "width", "penwidth", "rankdir")


def strip(e, st, x):
    while x.k in ("ref", "kref"):
        x = e.loadref(st, x)
    return x


class World:
    """runs statement lists through new, visit_graph and get"""

    def __init__(self, ck):
        self.ck = ck
        self.mk = AstMaker(ck)
        self.T = self.mk.T
        self.f_new = ck.fn("layout::%s::new" % BN)
        self.f_visit = ck.fn("layout::%s::visit_graph" % BN)
        self.f_get = ck.fn("layout::%s::get" % BN)
        self.vg = "layout::topo::layout::VisualGraph::"
        for m in ("new", "add_node", "add_edge"):
            ck.fn(self.vg + m)
        self.handle = self.T.ty("dag::NodeHandle")
        self.panics = []
        self.n_paths = 0
        self.string = self.T.field_ty(self.mk.nodeid, "name")

    def s(self, name):
        """a symbolic string"""
        return inp(name, self.string)

    def handlers(self):
        T = self.T

        def push(st, what, x):
            l = st.mon.get(what)
            st.mon[what] = mk("lst", *(tuple(l.a) if l is not None else ()), x)
            return len(st.mon[what].a) - 1

        def add_node(e, st, a, ty, ctx):
            i = push(st, "vg:nodes", a[1])
            return agg(self.handle, 0, [Int(i)])

        def add_edge(e, st, a, ty, ctx):
            push(st, "vg:edges", tup(a[1], a[2], a[3]))
            return UNIT

        def vg_new(e, st, a, ty, ctx):
            st.mon["vg:dir"] = a[0]
            t = mk("app", "vg")
            t.ty = self.T.ty("layout::VisualGraph")
            return t

        def size(e, st, a, ty, ctx):
            t = mk("app", "shape_size", a[0], e.loadref(st, a[1]), a[2], a[3])
            t.ty = self.T.ty("geometry::Point")
            return t

        def record(e, st, a, ty, ctx):
            t = mk("app", "record", strip(e, st, a[0]))
            t.ty = self.T.ty("shapes::ShapeKind")
            return t

        def color(e, st, a, ty, ctx):
            t = mk("app", "color", strip(e, st, a[0]))
            t.ty = self.T.ty("color::Color")
            return t
        return {self.vg + "add_node": add_node, self.vg + "add_edge": add_edge, self.vg + "new": vg_new,
                "layout::std_shapes::render::get_shape_size": size, "layout::core::color::Color::fast": color,
                "layout::gv::record::record_builder": record}

    def facts(self, e, st, distinct, unknown_keys):
        for x, y in itertools.combinations(distinct, 2):
            e.assume(st, e.streq(x, y), False)
        for x in unknown_keys:
            for k in KNOWN:
                e.assume(st, e.streq(x, Lit(k)), False)

    def run(self, stmts, distinct=(), unknown_keys=(), ranges=(), time=10):
        """final paths (state, nodes, edges, orientation), or None when the run was cut"""
        outs = []
        r0 = Runner(self.ck, self.f_new, max_time=time, max_rec=14, unroll=120)
        self.facts(r0.e, r0.st, distinct, unknown_keys)
        for c, iv in ranges:
            r0.e.restrict(r0.st, c, iv)
        cut = []

        def stage(f, args, st, nxt):
            r = Runner(self.ck, f, max_time=time, handlers=self.handlers(), max_rec=14, unroll=120)
            r.e.map_orders = True
            r.go(args, nxt, st=st)
            if r.cut:
                cut.append(f.n)
            self.panics += r.panics

        def after_new(p):
            br = p.e.heap(p.st, p.ret)
            gr = p.e.heap(p.st, self.mk.mk_graph(stmts))
            stage(self.f_visit, [br, gr], p.st, lambda q: after_visit(q, br))

        def after_visit(p, br):
            stage(self.f_get, [br], p.st, done)

        def done(p):
            n, e_ = p.st.mon.get("vg:nodes"), p.st.mon.get("vg:edges")
            outs.append((p, list(n.a) if n is not None else [], list(e_.a) if e_ is not None else [], p.st.mon.get("vg:dir")))
        r0.go([], after_new)
        self.n_paths += len(outs)
        return None if cut or r0.cut else outs


# ------------------------------------------------------------------ the reference reading of a statement list
class Ref:
    def __init__(self, stmts):
        self.nodes, self.edges = {}, []
        self.scopes = {"graph": [], "node": [], "edge": []}
        self.attrs = self.graph(stmts)

    def flat(self, what, own=()):
        d = {}
        for s in self.scopes[what]:
            d.update(s)
        for k, v in own:
            d[k] = v
        return d

    def mention(self, name, attrs, declare):
        if name not in self.nodes:
            self.nodes[name] = dict(attrs)
        elif declare:
            self.nodes[name].update(attrs)

    def graph(self, stmts):
        for s in self.scopes.values():
            s.append({})
        for s in stmts:
            if s[0] == "node":
                self.mention(s[1], self.flat("node", s[3]), True)
            elif s[0] == "attr":
                for k, v in s[2]:
                    self.scopes[s[1]][-1][k] = v
            elif s[0] == "sub":
                self.graph(s[1])
            else:
                self.mention(s[1][0][0], self.flat("node"), False)
                for (x, xp), (y, yp), k in zip(s[1], s[1][1:], s[2]):
                    self.mention(y, self.flat("node"), False)
                    self.edges.append((x, y, xp, yp, k, self.flat("edge", s[3])))
        r = self.flat("graph")
        for s in self.scopes.values():
            s.pop()
        return r


def text(s):
    """a statement list as DOT, for reports"""
    a = lambda l: " [%s]" % ", ".join("%s=%s" % (show(k), show(v)) for k, v in l) if l else ""
    i = lambda n, p: show(n) + (":" + show(p) if p is not None else "")
    out = []
    for x in s:
        if x[0] == "node":
            out.append(i(x[1], x[2]) + a(x[3]))
        elif x[0] == "attr":
            out.append(x[1] + a(x[2]))
        elif x[0] == "sub":
            out.append("{ %s }" % text(x[1]))
        else:
            t = i(*x[1][0])
            for (n, p), k in zip(x[1][1:], x[2]):
                t += (" -> " if k == ">" else " -- ") + i(n, p)
            out.append(t + a(x[3]))
    return "; ".join(out)


class Judge:
    def __init__(self, ck, w, fam):
        self.ck, self.w, self.T, self.fam = ck, w, w.T, fam

    def say(self, p, name, r, msg, stmts):
        ck = self.ck
        if r is True:
            ck.ok("%s:%s" % (self.fam, name), text(stmts)[:200])
        elif r is False and not p.opaque:
            ck.violation("%s:%s" % (self.fam, name), "%s in `%s`" % (msg, text(stmts)[:300]), "gv/builder.rs GraphBuilder", trace_of(ck.prog(), p.st))
        else:
            ck.undecided("%s:%s" % (self.fam, name), "%s in `%s`" % (msg, text(stmts)[:200]), "gv/builder.rs GraphBuilder")

    def same(self, p, x, y):
        return same(p.e, p.st, strip(p.e, p.st, x), strip(p.e, p.st, y))

    def opt(self, p, v, want):
        """an Option value against a term or None"""
        if v.k != "agg":
            return None
        if v.a[1] == 0 or want is None:
            return (v.a[1] == 0) == (want is None)
        return self.same(p, v.a[2][0], want)

    def variant(self, v):
        return self.T.variant_name(v) if v.k == "agg" and v.a[0] >= 0 else None

    def labels(self, p, el, want):
        sh = self.T.get(el, "shape")
        if sh.k != "agg" or len(sh.a[2]) != 1:
            return None
        return self.same(p, sh.a[2][0], want)

    def run(self, stmts, distinct, unknown=(), parts=("nodes", "node labels", "edges", "edge labels", "ports", "heads")):
        w = self.w
        w.panics = []
        outs = w.run(stmts, distinct, unknown)
        for s, what, line in w.panics:
            p = Path(None, s, None)
            self.say(p, "panic", False, "building panics (%s at %s)" % (what, line), stmts)
        if outs is None:
            self.ck.undecided("%s:cut" % self.fam, "not all paths followed for `%s`" % text(stmts))
            return
        ref = Ref(stmts)
        order = list(ref.nodes)
        for p, nodes, edges, d in outs:
            ok = len(nodes) == len(order)
            if "rankdir" in parts:
                rd = ref.attrs.get(Lit("rankdir"))
                vo = self.variant(d) if d is not None else None
                if vo is not None:
                    self.say(p, "rankdir", vo == ("LeftToRight" if rd is Lit("LR") else "TopToBottom"), "the graph gets the wrong orientation", stmts)
            if "nodes" in parts:
                self.say(p, "nodes", ok, "%d elements are made for %d distinct nodes" % (len(nodes), len(order)), stmts)
            if ok and "node labels" in parts:
                for n, el in zip(order, nodes):
                    self.say(p, "node labels", self.labels(p, el, ref.nodes[n].get(Lit("label"), n)), "node %s gets the wrong label" % show(n), stmts)
            ok = ok and len(edges) == len(ref.edges)
            if "edges" in parts:
                self.say(p, "edges", len(edges) == len(ref.edges), "%d arrows are made for %d edges" % (len(edges), len(ref.edges)), stmts)
            if not ok:
                continue
            for i, (x, y, xp, yp, k, attrs) in enumerate(ref.edges):
                ar, f, t = edges[i].a[2]
                if "edges" in parts:
                    h = [self.same(p, v.a[2][0], Int(order.index(n))) if v.k == "agg" else None for v, n in ((f, x), (t, y))]
                    self.say(p, "edges", all3(h), "edge %d does not join %s and %s" % (i, show(x), show(y)), stmts)
                g = lambda n: self.T.get(ar, n)
                if "edge labels" in parts:
                    self.say(p, "edge labels", self.same(p, g("text"), attrs.get(Lit("label"), Lit(""))), "edge %d gets the wrong label" % i, stmts)
                if "ports" in parts:
                    self.say(p, "ports", all3([self.opt(p, g("src_port"), xp), self.opt(p, g("dst_port"), yp)]), "edge %d gets the wrong ports" % i, stmts)
                if "heads" in parts:
                    vs = [self.variant(g("start")), self.variant(g("end"))]
                    self.say(p, "heads", None if None in vs else vs == ["None", "Arrow" if k == ">" else "None"], "edge %d gets the wrong arrow heads" % i, stmts)


class Gen:
    """fresh symbolic names and values"""

    def __init__(self, w, names="abcdefghijkl"):
        self.w = w
        self.n = [w.s(x) for x in names]
        self.k = w.s("key")
        self.i = 0
        self.nn = 0

    def v(self):
        self.i += 1
        return self.w.s("v%d" % self.i)

    def fresh(self):
        self.nn += 1
        return self.n[self.nn - 1]

    def lab(self):
        return (Lit("label"), self.v())


def scoping(g, c):
    """one statement of the scoping family"""
    if c == "An":
        return ("attr", "node", [g.lab()])
    if c == "Ae":
        return ("attr", "edge", [g.lab()])
    if c == "Ank":
        return ("attr", "node", [g.lab(), (g.k, g.v()), g.lab()])
    if c == "Aek":
        return ("attr", "edge", [(g.k, g.v()), g.lab(), g.lab()])
    if c == "G":
        return ("attr", "graph", [(Lit("rankdir"), Lit("LR"))])
    if c == "H":
        return ("attr", "graph", [(Lit("rankdir"), Lit("TB"))])
    if c == "N":
        return ("node", g.fresh(), None, [])
    if c == "E":
        x = g.fresh()
        return ("edge", [(x, None), (x, None)], ">", [])
    if c == "E3":
        x = g.fresh()
        return ("edge", [(x, None), (x, None), (x, None), (x, None)], ">->", [])
    if c == "El":
        x = g.fresh()
        return ("edge", [(x, None), (x, None), (x, None)], ">>", [g.lab()])
    if c == "Nl":
        return ("node", g.fresh(), None, [g.lab(), (g.k, g.v())])
    return ("sub", [scoping(g, x) for x in c])


def seqs(alpha, lens, keep):
    for n in lens:
        for s in itertools.product(alpha, repeat=n):
            if keep(s):
                yield s


def flat(s):
    out = []
    for x in s:
        out += flat(x) if isinstance(x, tuple) else [x]
    return out


NAMES = ["z9", "b", "a", "M", "_x", "10", "9", "aa", "A", "zz", "", " ", "label", "node", "n1", "n10", "n2", "\u00e9", "Z", "k", "j", "h", "g", "f", "-1", "2.5"]


def large():
    """a few large graphs with literal names and values"""
    n = [Lit(x) for x in NAMES]
    i = [0]

    def lab():
        i[0] += 1
        return (Lit("label"), Lit("v%d" % i[0]))
    E = lambda *ids, **k: ("edge", [(n[x], Lit("p%d" % x) if x % 3 == k.get("p", 1) else None) for x in ids], k.get("kinds", ">" * (len(ids) - 1)), [lab()] if k.get("l") else [])
    N = lambda x, *l: ("node", n[x], None, list(l))
    nest = []
    for d in range(9):
        nest = [("attr", "edge", [lab()]), ("sub", nest), E(d, d + 1), ("attr", "node", [lab()]), N(d + 10), E(d + 11, d), N(d)]
    yield "nested", nest
    yield "star", [("attr", "edge", [lab()])] + [E(0, x, p=x % 2) for x in range(1, 20)] + [N(x, lab()) for x in range(0, 20, 3)]
    yield "chain", [E(*range(12)), E(*range(11, -1, -1), kinds="-" * 11, l=1), E(*([5] * 9), kinds=">-" * 4), E(3, 2, 1, 3, 2, 1, 3, 2, 1, kinds="->" * 4, p=2)]
    yield "nodes", [N(x) for x in range(26)] + [N(x, lab(), (Lit("zz"), Lit("q")), lab()) for x in range(25, -1, -1)] + [("attr", "node", [lab()])] + [E(x, 25 - x, l=x % 2) for x in range(10)] + [N(4)]
    yield "repeats", [E(0, 1)] * 12 + [N(0, lab())] * 9 + [("sub", [E(1, 0)] * 4 + [("sub", [])] * 6 + [("attr", "edge", [lab()])]), E(1, 1, l=1), E(0, 1)]
    yield "attrs", [("attr", t, [(Lit("key%d" % x), Lit("w%d" % x)) for x in range(12)] + [lab()]) for t in ("node", "edge", "graph")] + [N(3), E(3, 4), N(5, *[(Lit("own%d" % x), Lit("u")) for x in range(14)], lab()), E(5, 6, l=1), N(7), ("attr", "graph", [(Lit("rankdir"), Lit("LR"))])]
    yield "siblings", [x for d in range(8) for x in (("sub", [("attr", "node", [lab()]), ("attr", "edge", [lab()]), N(d), E(d, d + 1)]), N(d + 10), E(d + 10, d + 11))]


def run_large(ck, w, fam, parts):
    def one(ck, s):
        Judge(ck, w, fam).run(s[1], [], [], parts)
    parallel(ck, list(large()), one)


def run_scoping(ck):
    """B01"""
    w = World(ck)
    alpha = ["An", "Ae", "Ank", "Aek", "N", "E", ("An",), ("Ae",), ("An", "N"), ("Ae", "E"), ("N",), ("E",), (("An", "Ae"), "N", "E"), ("An", ("Ae",), "E")]

    def keep(s):
        f = flat(s)
        obs = s[-1] in ("N", "E") or isinstance(s[-1], tuple) and any(x in "NE" for x in flat(s[-1]))
        return obs and any(x[0] == "A" for x in f) and sum(x in "NE" for x in f) <= 6
    items = list(seqs(alpha, (1, 2, 3), keep))
    more = ["An", "Ae", "N", "E", "E3", "El", "Nl", "G", "H", ("G",), ("H", "N"), ("Ae", "E3"), ("Ae", "El"), ("An", "Nl"), ("El", "Ae"), ("Nl", "An")]
    items += list(seqs(more, (1, 2), lambda s: True)) + list(seqs(["G", "H", ("G",), ("H", "N"), "N"], (3,), lambda s: True))
    items += [s for s in seqs(["E3", "El", "Nl", ("Ae", "E3"), ("El", "Ae"), ("Nl", "An"), ("Ae", "El"), ("An", "Nl"), "E", "N"], (3,), lambda s: True)]
    for a in ("An", "Ae", "G"):
        for o in ("N", "E", "Nl", "El"):
            d = (o,)
            for depth in range(5):
                items += [(a, d), (a, d, o), (d, a, o), ((a, d), o), (a, (("H", "An", "Ae", d), o), o)]
                d = (d,)
                items.append(("N", a, d, (d, a)))
    if ck.thorough:
        items += [s for i, s in enumerate(seqs(alpha, (4,), keep)) if i % 3 == 0]

    def one(ck, s):
        g = Gen(w)
        Judge(ck, w, "scope").run([scoping(g, c) for c in s], g.n, [g.k], ("nodes", "node labels", "edges", "edge labels", "rankdir"))
    parallel(ck, items, one)
    run_large(ck, w, "scope", ("nodes", "node labels", "edges", "edge labels", "rankdir"))
    ck.extra["statement lists"] = len(items)


def run_routing(ck):
    """B02"""
    w = World(ck)

    def make(g, c):
        if c in ("graph", "node", "edge"):
            return ("attr", c, [g.lab()])
        if c == "gl":
            return ("attr", "graph", [(Lit("rankdir"), Lit("LR")), g.lab()])
        if c == "N":
            return ("node", g.fresh(), None, [])
        if c == "Nl":
            return ("node", g.fresh(), None, [(g.k, g.v()), g.lab()])
        if c == "Nll":
            return ("node", g.fresh(), None, [g.lab(), g.lab()])
        x, y = g.fresh(), g.fresh()
        if c == "E":
            return ("edge", [(x, None), (y, None)], ">", [])
        if c == "El":
            return ("edge", [(x, None), (y, None)], "-", [g.lab(), (g.k, g.v())])
        if c == "Ell":
            return ("edge", [(x, None), (y, None), (x, None)], ">>", [g.lab(), g.lab()])
        return ("sub", [make(g, x) for x in c])
    alpha = ["graph", "node", "edge", "gl", "N", "Nl", "Nll", "E", "El", "Ell", ("gl", "Nl"), ("edge", "El"), ("node", "E")]

    def one(ck, s):
        g = Gen(w, ["n%d" % i for i in range(16)])
        stmts = [make(g, c) for c in s]
        Judge(ck, w, "route").run(stmts, g.n[:g.nn], [g.k], ("nodes", "node labels", "edges", "edge labels", "rankdir"))
    items = list(seqs(alpha, (1, 2, 3) if not ck.thorough else (1, 2, 3), lambda s: True))
    if ck.thorough:
        items += [s for i, s in enumerate(itertools.product(alpha, repeat=4)) if i % 5 == 0]
    parallel(ck, items, one)
    run_large(ck, w, "route", ("nodes", "node labels", "edges", "edge labels", "rankdir"))
    ck.extra["statement lists"] = len(items)


def run_registry(ck):
    """B03"""
    w = World(ck)

    def make(g, c):
        k = c[0]
        if k == "A":
            return ("attr", "node", [g.lab()])
        if k == "N":
            return ("node", g.n[c[1]], None, [])
        if k == "L":
            return ("node", g.n[c[1]], None, [g.lab()])
        if k == "E":
            return ("edge", [(g.n[i], None) for i in c[1:]], ">" * (len(c) - 2), [])
        return ("sub", [make(g, x) for x in c[1:]])
    alpha = [("N", 0), ("N", 1), ("L", 0), ("L", 1), ("E", 0, 1), ("E", 1, 0), ("E", 0, 0), ("E", 2, 1, 0), ("A",), ("S", ("N", 1)), ("S", ("A",), ("L", 0)), ("S", ("E", 1, 2))]

    def one(ck, s):
        g = Gen(w)
        Judge(ck, w, "registry").run([make(g, c) for c in s], g.n, [], ("nodes", "node labels", "edges"))
    items = list(seqs(alpha, (1, 2, 3), lambda s: True))
    if ck.thorough:
        items += [s for i, s in enumerate(itertools.product(alpha, repeat=4)) if i % 4 == 0]
    parallel(ck, items, one)
    run_large(ck, w, "registry", ("nodes", "node labels", "edges"))
    ck.extra["statement lists"] = len(items)


def run_edges(ck):
    """B04"""
    w = World(ck)
    items = []
    for n in (2, 3, 4):
        for ids in itertools.product(range(min(n, 3)), repeat=n):
            for kinds in itertools.product(">-", repeat=n - 1):
                for ports in itertools.product((0, 1), repeat=n):
                    if n == 4 and not ck.thorough and (len(set(ids)) < 3 or sum(ports) not in (0, 2, 4)):
                        continue
                    items.append([(ids, kinds, ports)])
    short = [x[0] for x in items if len(x[0][0]) == 2]
    two = [[x, y] for x in short for y in short]
    items += two

    def one(ck, s):
        g = Gen(w)
        stmts = []
        for ids, kinds, ports in s:
            stmts.append(("edge", [(g.n[i], g.w.s("p%d_%d" % (len(stmts), j)) if q else None) for j, (i, q) in enumerate(zip(ids, ports))], "".join(kinds), []))
        Judge(ck, w, "edges").run(stmts, g.n, [], ("edges", "ports", "heads"))
        inner = [("sub", stmts), ("edge", [(g.n[3], None), (g.n[0], None)], "-", [])]
        if len(s) == 1 and len(s[0][0]) == 2:
            Judge(ck, w, "edges").run(inner, g.n, [], ("edges", "ports", "heads"))
    parallel(ck, items, one)
    run_large(ck, w, "edges", ("edges", "ports", "heads"))
    ck.extra["statement lists"] = len(items)


# ------------------------------------------------------------------ B05: attributes to looks
def generic(w, e, st, name, no=":"):
    """a character that is none of `no`"""
    c = mk("in", name)
    c.ty = w.ck.prog().ty_by_d.get("char")
    bad = tuple(sorted((ord(x), ord(x)) for x in no))
    e.restrict(st, c, iv_and(iv_not(bad), ((1, 0xD7FF), (0xE000, 0x10FFFF))))
    return mk("ch", c)


class Val:
    """an attribute value of a pattern; known: its text up to generic characters '?'"""

    def __init__(self, pat=None):
        self.pat = pat

    def term(self, w, e, st, name):
        if self.pat is None:
            return w.s(name)
        return mk_str([generic(w, e, st, "%s.%d" % (name, i)) if c == "?" else mk("lit", c) for i, c in enumerate(self.pat)])


COLORS = ["red", "???", "???:??", ":??", "??:", "??:??:?", "transparent", "transparent:??", "??:transparent", "transparent??", "", ":"]
NUMS = ["20", "0", "007", "+5", "-3", "abc", "", "3.5", " 7", "18446744073709551615", "18446744073709551616", "12pt"]
NODE_ATTRS = {
    "label": [None, "", "??"],
    "shape": [None, "box", "doublecircle", "record", "Mrecord", "circle", "Box", "ellipse", "mrecord", ""],
    "color": COLORS, "fillcolor": COLORS,
    "style": [None, "filled", "dashed", "Filled", "filled,rounded", ""],
    "fontsize": [None] + NUMS, "width": [None] + NUMS, "penwidth": [None, "20"],
    "fontcolor": [None], "height": [None, "20"], "dir": [None],
}
EDGE_ATTRS = {
    "label": [None, "", "??"], "style": [None, "dashed", "dotted", "filled", "Dashed", "dashed,bold", ""],
    "color": COLORS, "penwidth": [None] + NUMS, "fontsize": [None] + NUMS, "width": [None, "20"], "fillcolor": ["red"], "fontcolor": [None], "weight": ["5"], "shape": ["box"],
    "dir": [None, "both", "back", "none"], "arrowhead": [None],
}


def norm_color(pat):
    """the prefix before the first colon; `transparent` is drawn as white"""
    i = pat.find(":")
    pat = pat if i < 0 else pat[:i]
    return "white" if pat == "transparent" else pat


class Table:
    def __init__(self, ck, w, target):
        self.ck, self.w, self.T, self.target = ck, w, w.T, target
        self.j = Judge(ck, w, "table")

    def cases(self, p, t, consts):
        """[(path, the constant t equals or None)] : every way the value can relate to the constants"""
        if t is None:
            return [(p, None)]
        c = str_const(t)
        if c is not None:
            return [(p, c if c in consts else None)]
        out, none = [], p.st.copy()
        feasible = True
        for k in consts:
            d = p.decide(p.e.streq(t, Lit(k)))
            if d is True:
                return [(p, k)]
            if d is None:
                s = p.st.copy()
                if p.e.assume(s, p.e.streq(t, Lit(k)), True):
                    out.append((Path(p.e, s, p.ret), k))
                feasible = feasible and p.e.assume(none, p.e.streq(t, Lit(k)), False)
        if feasible:
            out.append((Path(p.e, none, p.ret), None))
        return out

    def color(self, p, v, val, pat, default):
        """v: a Color term made by the intercepted lookup"""
        if v.k != "app" or v.a[0] != "color":
            return None
        x = v.a[1]
        if val is None:
            return self.j.same(p, x, Lit(default))
        n = norm_color(pat)
        if n == "white" and pat != n:
            return self.j.same(p, x, Lit("white"))
        k = len(n)
        return self.j.same(p, x, mk_str([mk("ch", c) for c in str_chars(val)[:k]]))

    def number(self, p, v, val, pat, default):
        if val is None:
            return self.j.same(p, v, Int(default))
        if pat is not None:
            import re
            n = int(pat) if re.fullmatch(r"\+?[0-9]+", pat) and int(pat) < 1 << 64 else default
            return self.j.same(p, v, Int(n))
        ok = mk("app", "parses_usize?bool", val)
        d = p.decide(ok)
        if d is False:
            return self.j.same(p, v, Int(default))
        if d is True:
            return v is mk("app", "parse_usize", val)
        return False if v.k == "int" else None

    def judge(self, p, name, r, msg, stmts):
        # a decision that rests on the parse outcome of an opaque value is modelled
        self.j.say(p, name, r, msg, stmts)

    def node(self, p, el, at, pats, d, stmts):
        T = self.T
        lr = pats.get("rankdir") == "LR"
        look = T.get(el, "look")
        g = lambda n: T.get(look, n)
        label = at.get("label", self.name)
        for q, sh in self.cases(p, at.get("shape"), ("box", "doublecircle", "record", "Mrecord")):
            shape = T.get(el, "shape")
            vn = self.j.variant(shape)
            if sh in ("record", "Mrecord"):
                r = shape.k == "app" and shape.a[0] == "record" and self.j.same(q, shape.a[1], label)
                if shape.k == "agg" and vn == "Record":
                    r = None
            else:
                want = {"box": "Box", "doublecircle": "DoubleCircle"}.get(sh, "Circle")
                r = (vn == want and self.j.same(q, shape.a[2][0], label)) if vn else (False if shape.k == "app" and shape.a[0] == "record" else None)
            self.judge(q, "node shape", r, "shape=%s gives another shape or label" % sh, stmts)
            self.judge(q, "node corners", self.j.same(q, g("rounded"), Int(15 if sh == "Mrecord" else 0)), "wrong corner rounding", stmts)
            # size
            pos = T.get(el, "pos")
            sizes = [x for x in (pos.a[2] if pos.k == "agg" else ()) if x.k == "app" and x.a[0] == "shape_size"]
            r = None
            if len(sizes) == 1:
                x = sizes[0]
                vd = self.j.variant(x.a[1])
                r = all3([vd == ("TopToBottom" if lr else "LeftToRight") if vd else None, same(q.e, q.st, x.a[2], shape), self.j.same(q, x.a[3], g("font_size")), self.j.same(q, x.a[4], Bool(sh == "doublecircle"))])
            self.judge(q, "node size", r, "the size is not that of the shape with its font", stmts)
        self.judge(p, "node color", self.color(p, g("line_color"), at.get("color"), pats.get("color"), "black"), "wrong line colour", stmts)
        fill = g("fill_color")
        f = fill.a[2][0] if fill.k == "agg" and fill.a[1] == 1 else None
        for q, stl in self.cases(p, at.get("style"), ("filled",)):
            dflt = "lightgray" if stl == "filled" else "white"
            r = False if fill.k == "agg" and fill.a[1] == 0 else None if f is None else self.color(q, f, at.get("fillcolor"), pats.get("fillcolor"), dflt)
            self.judge(q, "node fill", r, "wrong fill colour", stmts)
        self.judge(p, "node font", self.number(p, g("font_size"), at.get("fontsize"), pats.get("fontsize"), 14), "wrong font size", stmts)
        self.judge(p, "node line width", self.number(p, g("line_width"), at.get("width"), pats.get("width"), 1), "wrong line width", stmts)
        vo = self.j.variant(T.get(el, "orientation"))
        self.judge(p, "node orientation", None if vo is None else vo == ("TopToBottom" if lr else "LeftToRight"), "wrong orientation", stmts)
        vo = self.j.variant(d)
        self.judge(p, "rankdir", None if vo is None else vo == ("LeftToRight" if lr else "TopToBottom"), "wrong graph orientation", stmts)

    def edge(self, p, ar, at, pats, stmts):
        T = self.T
        look = T.get(ar, "look")
        g = lambda n: T.get(look, n)
        self.judge(p, "edge label", self.j.same(p, T.get(ar, "text"), at.get("label", Lit(""))), "wrong edge label", stmts)
        for q, stl in self.cases(p, at.get("style"), ("dashed",)):
            v = self.j.variant(T.get(ar, "line_style"))
            self.judge(q, "edge style", None if v is None else v == ("Dashed" if stl == "dashed" else "Normal"), "wrong edge line style", stmts)
        self.judge(p, "edge color", self.color(p, g("line_color"), at.get("color"), pats.get("color"), "black"), "wrong edge colour", stmts)
        self.judge(p, "edge width", self.number(p, g("line_width"), at.get("penwidth"), pats.get("penwidth"), 1), "wrong edge width", stmts)
        self.judge(p, "edge font", self.number(p, g("font_size"), at.get("fontsize"), pats.get("fontsize"), 14), "wrong edge font size", stmts)
        vs = [self.j.variant(T.get(ar, "start")), self.j.variant(T.get(ar, "end"))]
        self.judge(p, "edge ends", None if None in vs else vs == ["None", "Arrow"], "wrong arrow heads", stmts)

    def run(self, attrs):
        """attrs: [(name, pattern or None)]"""
        w = self.w
        w.panics = []
        st0 = {}
        pats = {k: v for k, v in attrs}
        self.name, self.dest = w.s("a"), w.s("b")
        pre = Eng(self.ck.prog())
        facts = []

        class Rec:
            def restrict(s, st, c, iv):
                facts.append((c, iv))
        at = {k: Val(v).term(w, Rec(), None, "val." + k) for k, v in attrs if k != "rankdir"}
        lst = [(Lit(k), t) for k, t in at.items()]
        stmts = []
        if "rankdir" in pats:
            stmts.append(("attr", "graph", [(Lit("rankdir"), Lit(pats["rankdir"]))]))
        if self.target == "node":
            stmts.append(("node", self.name, None, lst))
        else:
            stmts.append(("edge", [(self.name, None), (self.dest, None)], ">", lst))
        outs = w.run(stmts, (self.name, self.dest), ranges=facts)
        for s, what, line in w.panics:
            self.j.say(Path(None, s, None), "panic", False, "building panics (%s at %s)" % (what, line), stmts)
        if outs is None:
            self.ck.undecided("table:cut", "not all paths followed for `%s`" % text(stmts))
            return
        for p, nodes, edges, d in outs:
            if self.target == "node":
                if len(nodes) == 1:
                    self.node(p, nodes[0], at, pats, d, stmts)
            elif len(edges) == 1:
                self.edge(p, edges[0].a[2][0], at, pats, stmts)


def run_table(ck):
    """B05"""
    w = World(ck)
    items = []
    for target, tab in (("node", NODE_ATTRS), ("edge", EDGE_ATTRS)):
        items.append((target, []))
        for k, vs in tab.items():
            for v in vs:
                items.append((target, [(k, v)]))
        for (k, vs), (k2, vs2) in itertools.combinations(tab.items(), 2):
            n = 99 if {k, k2} in ({"style", "fillcolor"}, {"shape", "label"}) or ck.thorough else 4
            for v in vs[:n]:
                for v2 in vs2[:n]:
                    items.append((target, [(k, v), (k2, v2)]))
                    if n > 4:
                        items.append((target, [(k2, v2), (k, v)]))
    for rd in ("LR", "TB", "lr", "RL", "BT", ""):
        items.append(("node", [("rankdir", rd)]))
        items.append(("node", [("rankdir", rd), ("shape", "record")]))
        items.append(("node", [("rankdir", rd), ("shape", None)]))
    full = [("label", None), ("shape", None), ("color", "??"), ("fillcolor", "???"), ("style", None), ("fontsize", None), ("width", None)]
    items.append(("node", full))
    items.append(("edge", [("label", None), ("style", None), ("color", "??"), ("penwidth", None), ("fontsize", None)]))

    def one(ck, it):
        Table(ck, w, it[0]).run(it[1])
    parallel(ck, items, one)
    ck.extra["attribute lists"] = len(items)
