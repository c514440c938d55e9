"""V*, D*: what VisualGraph makes of nodes and edges, observed through its public accessors and its drawing calls"""
import itertools
import random
from terms import *
from core import *
from sym import *
from common import *
from build import *

VG = "layout::topo::layout::VisualGraph::"
DAG = "layout::adt::dag::DAG::"


def FLT(x):
    return mk("flt", repr(float(x)))


def PT(T, x, y):
    return T.make(T.ty("geometry::Point"), {"x": x, "y": y})


class GWorld:
    """builds a graph through new, add_node and add_edge, runs do_it and reads the result back"""

    def __init__(self, ck):
        self.ck = ck
        T = self.T = Types(ck)
        self.vg, self.elem, self.arrow = T.ty("layout::VisualGraph"), T.ty("shapes::Element"), T.ty("shapes::Arrow")
        self.shape, self.handle, self.pos = T.field_ty(self.elem, "shape"), T.ty("dag::NodeHandle"), T.ty("geometry::Position")
        self.orient = T.field_ty(self.elem, "orientation")
        self.look = T.field_ty(self.elem, "look")
        self.str = T.field_ty(self.arrow, "text")
        f = ck.fn
        self.f_new, self.f_node, self.f_edge, self.f_do = f(VG + "new"), f(VG + "add_node"), f(VG + "add_edge"), f(VG + "do_it")
        self.f_num, self.f_el, self.f_succ, self.f_pred = f(VG + "num_nodes"), f(VG + "element"), f(VG + "succ"), f(VG + "preds")
        self.f_lv, self.f_row, self.f_level = f(DAG + "num_levels"), f(DAG + "row"), f(DAG + "level")
        names = ck.prog().by_name
        self.h_render = [n for n in names if n.endswith("for %s>::render" % "layout::std_shapes::shapes::Element") or n.endswith("Element as layout::core::format::Renderable>::render")]
        if not self.h_render:
            raise Missing("Element::render")
        f("layout::std_shapes::render::render_arrow")
        f("layout::std_shapes::render::get_shape_size")
        self.placer = [n for n in names if n.startswith("layout::topo::placer::place::Placer::") and n.endswith("::layout")]
        self.cross = [n for n in names if n.startswith("layout::topo::optimizer::EdgeCrossOptimizer::") and n.endswith("::optimize")]
        self.panics, self.cut = [], []
        self.n_paths = 0
        self.nosize = False
        self.reals = None

    # ------------------------------------------------------------- inputs
    def element(self, i, orient, shape=None):
        T = self.T
        pt = lambda n: PT(T, inp("n%d.%sx" % (i, n), T.field_ty(T.ty("geometry::Point"), "x")), inp("n%d.%sy" % (i, n), T.field_ty(T.ty("geometry::Point"), "y")))
        if shape is None:
            shape = T.make(self.shape, [inp("n%d.label" % i, self.str)], "Box")
        return T.make(self.elem, {"shape": shape, "look": inp("n%d.look" % i, self.look), "orientation": T.make(self.orient, [], orient),
                                  "pos": T.make(self.pos, {"middle": pt("m"), "size": pt("s"), "center": pt("c"), "halo": pt("h")}),
                                  "properties": inp("n%d.properties" % i, T.field_ty(self.elem, "properties"))})

    def mkarrow(self, k, text):
        T = self.T
        d = {n: inp("e%d.%s" % (k, n), t) for n, t in T.variants(self.arrow)[0]["f"]}
        d["text"] = text
        return T.make(self.arrow, d)

    def h(self, i):
        return agg(self.handle, 0, [Int(i)])

    # ------------------------------------------------------------- running
    def handlers(self, noop=("placer", "cross"), capture=True):
        T = self.T

        def push(st, what, x):
            l = st.mon.get(what)
            st.mon[what] = mk("lst", *(tuple(l.a) if l is not None else ()), x)

        def size(e, st, a, ty, ctx):
            n = st.mon.get("g:sizes")
            n = 0 if n is None else n.a[0]
            st.mon["g:sizes"] = Int(n + 1)
            return PT(T, FLT(100 + n), FLT(10))

        def render(e, st, a, ty, ctx):
            push(st, "g:drawn", tup(Lit("node"), e.loadref(st, a[0]), a[1]))
            return UNIT

        def arrow(e, st, a, ty, ctx):
            push(st, "g:drawn", tup(Lit("arrow"), e.loadref(st, a[2]), e.loadref(st, a[3]), a[1]))
            return UNIT

        def nop(e, st, a, ty, ctx):
            return UNIT
        d = {}
        if not self.nosize:
            d["layout::std_shapes::render::get_shape_size"] = size
        if capture:
            for n in self.h_render:
                d[n] = render
            d["layout::std_shapes::render::render_arrow"] = arrow
        for n in (self.placer if "placer" in noop else []) + (self.cross if "cross" in noop else []):
            d[n] = nop
        return d

    def call(self, f, args, st, nxt, time=20):
        r = Runner(self.ck, f, max_time=time, handlers=self.hd, max_rec=14, unroll=200)
        r.e.reals, r.e.keep_fcmp = self.reals, self.reals is not None
        r.go(args, nxt, st=st)
        if r.cut:
            self.cut.append(f.n)
        self.panics += r.panics

    def run(self, n, edges, orient="TopToBottom", opt=True, texts=None, prep=None, elements=None, dims=(False, False), time=20, nonempty=False):
        """edges: [(from, to)]; -> [(Path, vg ref)] after do_it"""
        self.hd = self.handlers()
        self.panics, self.cut = [], []
        outs = []
        T = self.T
        r0 = Runner(self.ck, self.f_new, max_time=time, handlers=self.hd)
        st = r0.st
        self.texts = texts = [inp("e%d.text" % k, self.str) if texts is None or texts[k] is None else texts[k] for k in range(len(edges))]

        if nonempty:
            for t in texts:
                if t.k == "in":
                    r0.e.assume(st, r0.e.streq(t, Lit("")), False)
                    r0.e.restrict(st, r0.e.strlen(t), [(1, 1 << 62)])

        def step(p, vgr, ops):
            if not ops:
                outs.append((p, vgr))
                return
            o = ops[0]
            if o[0] == "node":
                self.call(self.f_node, [vgr, o[1]], p.st, lambda q: step(q, vgr, ops[1:]))
            elif o[0] == "edge":
                self.call(self.f_edge, [vgr, o[1], o[2], o[3]], p.st, lambda q: step(q, vgr, ops[1:]))
            else:
                rb = mk("app", "backend")
                br = p.e.heap(p.st, rb)
                self.call(self.f_do, [vgr, Bool(dims[0]), Bool(not opt), Bool(dims[1]), br], p.st, lambda q: step(q, vgr, ops[1:]), time)
        ops = [("node", (elements[i] if elements else self.element(i, orient))) for i in range(n)]
        ops += [("edge", self.mkarrow(k, texts[k]), self.h(x), self.h(y)) for k, (x, y) in enumerate(edges)]
        ops += [("do",)]
        self.call(self.f_new, [T.make(self.orient, [], orient)], st, lambda p: step(p, p.e.heap(p.st, p.ret), ops))
        self.n_paths += len(outs)
        return None if self.cut else outs

    # ------------------------------------------------------------- reading back
    def ask(self, p, f, args):
        """value of an accessor on one path (None if it does not have exactly one outcome)"""
        r = Runner(self.ck, f, max_time=5, handlers=self.hd)
        r.go(args, st=p.st.copy())
        if r.cut or len(r.paths) != 1:
            return None
        q = r.paths[0]
        v = q.ret
        while v.k in ("ref", "kref"):
            v = q.e.loadref(q.st, v)
        return v

    def num(self, p, f, args):
        v = self.ask(p, f, args)
        return v.a[0] if v is not None and v.k == "int" else None

    def hlist(self, v):
        """a Vec<NodeHandle> value as numbers"""
        if v is None:
            return None
        b, u, it = list_parts(v)
        if b is not None or u:
            return None
        out = []
        for x in it:
            i = self.T.get(x, "idx") if x.k == "agg" else x
            if i.k != "int":
                return None
            out.append(i.a[0])
        return out

    def view(self, p, vgr):
        """{"n", "succ", "pred", "rows", "el"} read with the public accessors, or None"""
        T = self.T
        n = self.num(p, self.f_num, [vgr])
        if n is None:
            return None
        s = {"n": n}
        s["succ"] = [self.hlist(self.ask(p, self.f_succ, [vgr, self.h(i)])) for i in range(n)]
        s["pred"] = [self.hlist(self.ask(p, self.f_pred, [vgr, self.h(i)])) for i in range(n)]
        s["el"] = [self.ask(p, self.f_el, [vgr, self.h(i)]) for i in range(n)]
        dag = p.e.heap(p.st, T.get(p.e.loadref(p.st, vgr), "dag"))
        m = self.num(p, self.f_lv, [dag])
        if m is None:
            return None
        s["rows"] = [self.hlist(self.ask(p, self.f_row, [dag, Int(i)])) for i in range(m)]
        if None in s["succ"] or None in s["pred"] or None in s["rows"] or None in s["el"]:
            return None
        return s


def etext(n, edges, orient, opt):
    return "%d nodes; %s; %s%s" % (n, " ".join("%d->%d" % e for e in edges) or "no edges", orient, "" if opt else "; no rank or crossing optimisation")


# ------------------------------------------------------------------ families of graphs
def sequences(n, m):
    """every sequence of m edges over n nodes, up to renaming the nodes that are not in the order of first mention"""
    pairs = list(itertools.product(range(n), repeat=2))
    for s in itertools.product(pairs, repeat=m):
        yield s


def rnd_graphs(count, seed, nodes=(4, 7), edges=(4, 11)):
    import random
    r = random.Random(seed)
    for _ in range(count):
        n = r.randint(*nodes)
        m = r.randint(*edges)
        mode = r.randint(0, 3)
        es = []
        for _ in range(m):
            x, y = r.randrange(n), r.randrange(n)
            if mode == 0 and x > y or mode == 1 and x < y:
                x, y = y, x
            if mode == 2 and es and r.random() < .3:
                x, y = r.choice(es)[::r.choice((1, -1))]
            es.append((x, y))
        yield n, tuple(es)


SHAPES = [
    (1, ()), (2, ()), (4, ()),
    (1, ((0, 0),)), (1, ((0, 0),) * 3),
    (2, ((0, 1),) * 4), (2, ((0, 1), (1, 0)) * 3), (2, ((1, 0), (0, 0), (1, 1), (0, 1))),
    (4, ((0, 1), (1, 2), (2, 3), (0, 3))), (4, ((0, 3), (0, 1), (1, 2), (2, 3), (3, 0))), (5, ((0, 1), (1, 2), (2, 3), (3, 4), (0, 4), (4, 0), (0, 4), (2, 2))),
    (4, ((3, 2), (2, 1), (1, 0), (3, 0), (0, 3))), (4, ((0, 1), (1, 2), (2, 3), (3, 0), (1, 3), (3, 1))),
    (6, ((0, 1), (2, 3), (4, 5), (1, 4), (3, 0))), (6, ((0, 5), (0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0), (5, 5))),
    (5, ((0, 1), (0, 2), (0, 3), (0, 4), (4, 3), (3, 2), (2, 1))), (5, ((1, 0), (2, 0), (3, 0), (4, 0), (1, 2), (2, 3), (3, 4))),
    (7, ((0, 1), (0, 2), (1, 3), (2, 4), (3, 5), (4, 5), (5, 6), (6, 0), (2, 5), (0, 6), (6, 6))),
    (4, ((0, 1), (1, 2), (3, 2), (3, 2))), (5, ((0, 1), (1, 2), (2, 3), (4, 3))), (5, ((0, 1), (1, 2), (2, 3), (4, 3), (4, 3), (4, 1))),
]


def family(ck, full3=False, rnd=60):
    """[(n, edges)]"""
    out = list(SHAPES)
    for m in (1, 2):
        out += [(3, s) for s in sequences(3, m)]
    s3 = list(sequences(3, 3))
    out += [(3, s) for i, s in enumerate(s3) if full3 or ck.thorough or i % 4 == 0]
    out += list(rnd_graphs(rnd * (4 if ck.thorough else 1), 7))
    return out


def patterns(i, m):
    """which edges of graph number i have a text: None = both cases"""
    return [((i * 2654435761) >> (k + 3)) & 1 for k in range(m)]


# ------------------------------------------------------------------ judging
class GJudge:
    def __init__(self, ck, w, fam):
        self.ck, self.w, self.T, self.fam = ck, w, w.T, fam

    def say(self, p, name, r, msg, what, site="topo/layout.rs VisualGraph"):
        ck = self.ck
        key = "%s:%s" % (self.fam, name)
        if r is True:
            ck.ok(key, what[:200])
        elif r is False and not (p is not None and p.opaque):
            ck.violation(key, "%s (%s)" % (msg, what), site, trace_of(ck.prog(), p.st) if p is not None else None)
        else:
            ck.undecided(key, "%s (%s)" % (msg, what), site)

    def same(self, p, x, y):
        return same(p.e, p.st, x, y)

    def key(self, el):
        """what tells an element from the others: its input, or the size it was given"""
        if el.k != "agg":
            return None
        pr = self.T.get(el, "properties")
        if pr.k != "agg":
            return ("in", pr)
        s = self.T.get(self.T.get(el, "pos"), "size")
        return ("size", s)

    def is_conn(self, el):
        s = self.T.get(el, "shape")
        return self.T.variant_name(s) == "Connector" if s.k == "agg" else None

    def label(self, el):
        """the text of a connector: a term, or None"""
        o = self.T.get(el, "shape").a[2][0]
        if o.k == "agg":
            return o.a[2][0] if o.a[1] == 1 else None
        return mk("sym", "?")

    def run(self, n, edges, orient="TopToBottom", opt=True, labelled=None, dims=(False, False), parts=()):
        w, T = self.w, self.T
        what = etext(n, edges, orient, opt)
        texts = None
        if labelled is not None:
            what += "; labels on %s" % ([k for k, l in enumerate(labelled) if l] or "none")
            texts = [None if l else Lit("") for l in labelled]
        outs = w.run(n, edges, orient, opt, texts, dims=dims, nonempty=labelled is not None)
        for s, pw, line in w.panics:
            if "panic" in parts:
                self.say(Path(None, s, None), "panic", False, "the graph cannot be drawn: %s at %s" % (pw, line), what)
        if outs is None:
            self.ck.undecided("%s:cut" % self.fam, "not all paths followed (%s) in %s" % (w.cut, what))
            return
        if "panic" in parts and not w.panics:
            self.say(None, "no panic", True, "", what)
        for p, vgr in outs:
            d = p.st.mon.get("g:drawn")
            d = list(d.a) if d is not None else []
            s = w.view(p, vgr)
            if s is None:
                self.ck.undecided("%s:view" % self.fam, "the final graph cannot be read in %s" % what)
                continue
            for part in parts:
                if part != "panic":
                    getattr(self, "p_" + part)(p, s, d, n, edges, what, orient, dims)

    # ------------------------------------------------------------- arrows of the final graph
    def arrows(self, d):
        """input edge -> [(elements, arrow)]; None if some arrow cannot be read"""
        out = {}
        T = self.T
        for x in d:
            a = x.a[2]
            if str_const(a[0]) != "arrow":
                continue
            b, u, it = list_parts(a[1])
            if b is not None or u or a[2].k != "agg" or any(el.k != "agg" for el in it):
                return None
            pr = T.get(a[2], "properties")
            k = int(pr.a[0][1:].split(".")[0]) if pr.k == "in" and pr.a[0].startswith("e") else pr
            out.setdefault(k, []).append((list(it), a[2]))
        return out

    def chains(self, s, els, selfloop, frm, to):
        """handles of a drawn chain: every way to place its elements on nodes along edges of the final dag"""
        keys = [self.key(x) for x in els]
        cand = [[h for h in range(s["n"]) if self.key(s["el"][h]) == k] for k in keys]
        res = []

        def go(i, path):
            if len(res) > 4:
                return
            if i == len(els):
                res.append(tuple(path))
                return
            for h in cand[i]:
                if h not in path[1:] and (h not in path or selfloop and i == len(els) - 1) and (i == 0 or selfloop or h in s["succ"][path[-1]]):
                    go(i + 1, path + [h])
        go(0, [])
        return res

    def p_edges(self, p, s, d, n, edges, what, orient, dims):
        T = self.T
        ar = self.arrows(d)
        if ar is None:
            return self.say(p, "arrows", None, "an arrow is not readable", what)
        self.say(p, "one arrow per edge", all(len(ar.get(k, ())) == 1 for k in range(len(edges))) and sum(len(v) for v in ar.values()) == len(edges),
                 "%d arrows are drawn for %d edges" % (sum(len(v) for v in ar.values()), len(edges)), what)
        used = {}
        for k, (x, y) in enumerate(edges):
            for els, a in ar.get(k, ())[:1]:
                g = lambda f: T.get(a, f)
                i = lambda f: inp("e%d.%s" % (k, f), T.field_ty(self.w.arrow, f))
                ek = [self.key(el) for el in els]
                kx, ky = (self.key(s["el"][h]) for h in (x, y))
                fwd = all3([ek[0] == kx and ek[-1] == ky] + [self.same(p, g(f), i(f)) for f in ("start", "end", "src_port", "dst_port")])
                rev = all3([ek[0] == ky and ek[-1] == kx] + [self.same(p, g(f), i(q)) for f, q in (("start", "end"), ("end", "start"), ("src_port", "dst_port"), ("dst_port", "src_port"))])
                r = True if fwd is True or rev is True else False if fwd is False and rev is False else None
                self.say(p, "ends", r, "edge %d: the arrow does not join its two nodes with its own heads and ports, forwards or turned round as a whole" % k, what)
                self.say(p, "style", all3([self.same(p, g(f), i(f)) for f in ("look", "line_style")]), "edge %d: the arrow has another look or line style" % k, what)
                inner = els[1:-1]
                self.say(p, "through connectors", all3([self.is_conn(el) for el in inner]), "edge %d passes through a node" % k, what)
                ch = self.chains(s, els, x == y, x, y)
                self.say(p, "chain", bool(ch), "edge %d: consecutive elements of the arrow are not joined in the graph" % k, what)
                if len(ch) == 1:
                    for h in ch[0][1:-1]:
                        used.setdefault(h, []).append(k)
                    if x == y and len(ch[0]) == 3:
                        row = [r_ for r_ in s["rows"] if ch[0][1] in r_]
                        self.say(p, "self loop", len(row) == 1 and x in row[0], "the connector of a self loop is not in the row of its node", what)
        self.say(p, "own connectors", all(len(v) == 1 for v in used.values()), "two edges share a connector", what)

    def p_labels(self, p, s, d, n, edges, what, orient, dims):
        T = self.T
        ar = self.arrows(d)
        if ar is None:
            return self.say(p, "arrows", None, "an arrow is not readable", what)
        for k, (x, y) in enumerate(edges):
            t = self.w.texts[k]
            emp = p.decide(p.e.streq(t, Lit("")))
            for els, a in ar.get(k, ())[:1]:
                labs = [(el, self.label(el)) for el in els[1:-1] if self.is_conn(el)]
                labs = [(el, l) for el, l in labs if l is not None]
                own = T.get(a, "text")
                oe = p.decide(p.e.streq(own, Lit("")))
                all_ = [l for el, l in labs] + ([own] if oe is not True else [])
                if emp is True:
                    r = all3([p.decide(p.e.streq(l, Lit(""))) for l in all_])
                    self.say(p, "no label", r, "edge %d has no label but one is drawn" % k, what)
                    continue
                if emp is None:
                    self.say(p, "label", None, "edge %d: the label is not known to be empty or not" % k, what)
                    continue
                if len(all_) != 1:
                    r = False if oe is not None else None
                else:
                    r = self.same(p, all_[0], t)
                self.say(p, "label", r, "edge %d: its label is drawn %d times, or differs" % (k, len(all_)), what)
                if len(labs) == 1:
                    self.say(p, "label look", self.same(p, T.get(labs[0][0], "look"), inp("e%d.look" % k, self.w.look)), "edge %d: its label is drawn with another look" % k, what)

    def p_drawn(self, p, s, d, n, edges, what, orient, dims):
        T = self.T
        ns = [x.a[2] for x in d if str_const(x.a[2][0]) == "node"]
        got = [self.key(a[1]) for a in ns]
        want = [self.key(e) for e in s["el"]]
        if None in got or None in want:
            return self.say(p, "elements", None, "an element is not readable", what)
        if n == 0:
            return self.say(p, "empty", not d, "an empty graph draws something", what)
        self.say(p, "elements", sorted(map(str, got)) == sorted(map(str, want)), "%d elements are drawn, the graph has %d" % (len(got), len(want)), what)
        for i in range(n):
            el = s["el"][i]
            i0 = self.w.element(i, orient)
            r = all3([self.same(p, T.get(el, f), T.get(i0, f)) for f in ("shape", "look", "properties")])
            self.say(p, "node kept", r, "node %d is drawn with another shape, look or properties" % i, what)
            dr = [a for a, k in zip(ns, got) if k == want[i]]
            for a in dr[:1]:
                self.say(p, "node drawn", all3([self.same(p, T.get(a[1], f), T.get(i0, f)) for f in ("shape", "look", "properties")] + [same(p.e, p.st, T.get(a[1], "pos"), T.get(el, "pos"))]),
                         "node %d is drawn otherwise than it is in the graph" % i, what)
        self.say(p, "debug flag", all3([same(p.e, p.st, a.a[2][2 if str_const(a.a[2][0]) == "node" else 3], Bool(dims[0])) for a in d]), "the debug flag is not passed on", what)
        # nodes first: arrows are drawn over the nodes
        kinds = [str_const(x.a[2][0]) for x in d]
        self.say(p, "order", "node" not in kinds[kinds.index("arrow"):] if "arrow" in kinds else True, "a node is drawn over an arrow", what)

    # ------------------------------------------------------------- the dag
    def p_mirror(self, p, s, d, n, edges, what, orient, dims):
        from collections import Counter
        a = Counter((i, j) for i in range(s["n"]) for j in s["succ"][i])
        b = Counter((j, i) for i in range(s["n"]) for j in s["pred"][i])
        self.say(p, "mirror", a == b, "predecessors and successors disagree on %s" % sorted(((a - b) + (b - a)))[:4], what, "adt/dag.rs DAG")

    def p_ranks(self, p, s, d, n, edges, what, orient, dims):
        flat = sorted(h for r in s["rows"] for h in r)
        self.say(p, "rows", flat == list(range(s["n"])), "the rows hold the nodes %s of %d" % (flat, s["n"]), what, "adt/dag.rs DAG")

    def p_acyclic(self, p, s, d, n, edges, what, orient, dims):
        state = {}

        def cyc(i):
            if state.get(i) == 1:
                return True
            if state.get(i) == 2:
                return False
            state[i] = 1
            r = any(cyc(j) for j in s["succ"][i])
            state[i] = 2
            return r
        self.say(p, "acyclic", not any(cyc(i) for i in range(s["n"])), "the edges of the final graph form a cycle", what)

    def p_levels(self, p, s, d, n, edges, what, orient, dims):
        lv = {h: i for i, r in enumerate(s["rows"]) for h in r}
        bad = [(i, j) for i in range(s["n"]) for j in s["succ"][i] if lv.get(j, -9) != lv.get(i, -9) + 1]
        self.say(p, "adjacent rows", not bad, "edges %s of the final graph do not go to the next row" % bad[:4], what)


    def p_down(self, p, s, d, n, edges, what, orient, dims):
        """an edge leads to a later row, unless the edges before it lead from its end to its start"""
        lv = {h: i for i, r in enumerate(s["rows"]) for h in r}
        kept = set()

        def leads(a, b):
            seen, work = {a}, [a]
            while work:
                x = work.pop()
                if x == b:
                    return True
                for u, v in kept:
                    if u == x and v not in seen:
                        seen.add(v)
                        work.append(v)
            return False
        for k, (a, b) in enumerate(edges):
            if a == b or a not in lv or b not in lv:
                continue
            if leads(b, a):
                self.say(p, "back edge", lv[b] < lv[a], "edge %d (%d->%d) closes a cycle, yet its end is not in an earlier row than its start" % (k, a, b), what)
            else:
                kept.add((a, b))
                self.say(p, "down", lv[a] < lv[b], "edge %d (%d->%d) closes no cycle, and yet does not lead to a later row (rows %d and %d)" % (k, a, b, lv[a], lv[b]), what)


def run_graphs(ck, fam, parts, labels="mixed", full3=False, rnd=60, extra=()):
    w = GWorld(ck)
    items = []
    for i, (n, es) in enumerate(family(ck, full3, rnd)):
        o = "LeftToRight" if i % 5 == 0 else "TopToBottom"
        for opt in ((True, False) if i < 150 or ck.thorough else (i % 3 != 0,)):
            if labels == "mixed" and len(es) > (2 if i < 150 else 0):
                items += [(n, es, o, opt, patterns(i + 77 * j, len(es)), (i % 7 == 0, i % 4 == 0)) for j in range(2)]
            else:
                items.append((n, es, o, opt, None if labels == "mixed" else [labels == "all"] * len(es), (i % 7 == 0, i % 4 == 0)))
    items += list(extra)

    def one(ck, it):
        n, es, o, opt, lab, dims = it
        GJudge(ck, w, fam).run(n, es, o, opt, lab, dims, parts)
    parallel(ck, items, one)
    ck.extra["graphs"] = len(items)


def run_edges(ck):
    """V01"""
    run_graphs(ck, "edges", ("edges",))


def run_labels(ck):
    """V04"""
    run_graphs(ck, "labels", ("labels",))


def run_drawn(ck):
    """V02"""
    run_graphs(ck, "drawn", ("drawn", "panic"), rnd=30, extra=[(0, (), o, opt, [], (dbg, False)) for o in ("TopToBottom", "LeftToRight") for opt in (True, False) for dbg in (True, False)])


def run_down(ck):
    """D05"""
    run_graphs(ck, "direction", ("down",), rnd=120)


def run_dag(ck):
    """D01"""
    run_graphs(ck, "dag", ("mirror", "ranks", "acyclic", "levels"))


# ------------------------------------------------------------------ the ranked dag on its own
class DWorld:
    def __init__(self, ck, fam):
        self.ck, self.T, self.fam = ck, Types(ck), fam
        self.handle = self.T.ty("dag::NodeHandle")
        self.f = {}
        for m in ("new", "new_node", "new_nodes", "add_edge", "remove_edge", "clear", "recompute_node_ranks", "update_node_rank_level", "is_reachable", "successors", "predecessors",
                  "num_levels", "row", "level", "len", "is_empty", "is_first_in_row", "is_last_in_row", "single_pred", "single_succ", "verify", "row_mut", "ranks"):
            self.f[m] = ck.fn(DAG + m)
        for a in self.f["update_node_rank_level"].raw["locals"][4:5]:
            self.opt = a if isinstance(a, int) else a[0] if not isinstance(a, dict) else a.get("ty", a.get("t"))
        self.j = GJudge.__new__(GJudge)
        self.j.ck, self.j.fam, self.j.T = ck, fam, self.T

    def h(self, i):
        return agg(self.handle, 0, [Int(i)])

    def call(self, p_or_st, name, args, e=None):
        """the one outcome of a call on a state, or None; panics -> "panic" """
        r = Runner(self.ck, self.f[name], max_time=10, max_rec=14, unroll=200)
        r.go(args, st=p_or_st)
        if r.cut or len(r.paths) + len(r.panics) != 1:
            return None
        return r.paths[0] if r.paths else "panic"

    def val(self, st, name, args):
        q = self.call(st.copy(), name, args)
        if q is None or q == "panic":
            return q
        v = q.ret
        while v.k in ("ref", "kref"):
            v = q.e.loadref(q.st, v)
        return v

    def hlist(self, v):
        return GWorld.hlist(self, v) if isinstance(v, T) else None

    def opth(self, v):
        """Option<NodeHandle> -> number, -1 for None"""
        if not isinstance(v, T) or v.k != "agg":
            return None
        if v.a[1] == 0:
            return -1
        x = v.a[2][0]
        i = self.T.get(x, "idx") if x.k == "agg" else None
        return i.a[0] if i is not None and i.k == "int" else None

    def num(self, v):
        return v.a[0] if isinstance(v, T) and v.k == "int" else None

    def bool(self, v):
        return None if not isinstance(v, T) or v.k != "int" else bool(v.a[0])


class DRef:
    """reference ranked dag"""

    def __init__(self):
        self.n, self.edges, self.rows = 0, [], []

    def place(self, i, lvl, before=None):
        for r in self.rows:
            if i in r:
                r.remove(i)
        while len(self.rows) <= lvl:
            self.rows.append([])
        r = self.rows[lvl]
        r.insert(r.index(before) if before is not None else len(r), i)

    def level(self, i):
        return [k for k, r in enumerate(self.rows) if i in r][0]

    def reach(self, x, y):
        seen, todo = set(), [x]
        while todo:
            a = todo.pop()
            if a == y:
                return True
            if a not in seen:
                seen.add(a)
                todo += [j for i, j in self.edges if i == a]
        return False

    def longest(self):
        lv = [0] * self.n
        for _ in range(self.n + 1):
            for i, j in self.edges:
                if i != j:
                    lv[j] = max(lv[j], lv[i] + 1)
        return lv


def dag_ops(w, ops, parts):
    """ops: ("node",) ("nodes", k) ("edge", i, j) ("del", i, j) ("rank",) ("level", i, lvl, before or None) ("clear",)"""
    what = " ".join("%s%s" % (o[0], list(o[1:]) if o[1:] else "") for o in ops)
    j = w.j
    site = "adt/dag.rs DAG"
    r0 = Runner(w.ck, w.f["new"], max_time=10)
    r0.go([])
    if len(r0.paths) != 1:
        return w.ck.undecided("%s:new" % w.fam, "DAG::new has no single outcome")
    p = r0.paths[0]
    ref = DRef()
    d = p.e.heap(p.st, p.ret)
    say = lambda name, r, msg: j.say(p, name, r, msg, what, site)
    has = lambda x: x in parts
    for o in ops:
        st = p.st
        want = None
        if o[0] == "node":
            q = w.call(st, "new_node", [d])
            want = ref.n
            ref.n += 1
            ref.place(want, 0)
        elif o[0] == "nodes":
            q = w.call(st, "new_nodes", [d, Int(o[1])])
            for _ in range(o[1]):
                ref.n += 1
                ref.place(ref.n - 1, 0)
        elif o[0] == "edge":
            q = w.call(st, "add_edge", [d, w.h(o[1]), w.h(o[2])])
            ref.edges.append(o[1:])
        elif o[0] == "del":
            q = w.call(st, "remove_edge", [d, w.h(o[1]), w.h(o[2])])
            want = o[1:] in ref.edges
            if want:
                ref.edges.remove(o[1:])
        elif o[0] == "rank":
            q = w.call(st, "recompute_node_ranks", [d])
            ref.rows = None
        elif o[0] == "clear":
            q = w.call(st, "clear", [d])
            ref = DRef()
        else:
            q = w.call(st, "update_node_rank_level", [d, w.h(o[1]), Int(o[2]), w.T.option(w.opt, w.h(o[3]) if o[3] is not None else None)])
            ref.place(*o[1:])
        if q == "panic":
            return say("panic", False, "%s fails" % o[0]) if has("panic") else None
        if q is None:
            return w.ck.undecided("%s:%s" % (w.fam, o[0]), "no single outcome in %s" % what)
        p = q
        if o[0] == "node" and has("rows"):
            say("new node", w.opth(p.ret) == want if p.ret.k == "agg" and p.ret.a[0] != w.handle else w.num(w.T.get(p.ret, "idx")) == want, "new_node returns another handle")
        if o[0] == "del" and has("mirror"):
            b = w.bool(p.ret)
            say("remove_edge", None if b is None else b == want, "remove_edge does not tell whether the edge was there")
        st = p.st
        if has("mirror"):
            for i in range(ref.n):
                s_, p_ = w.hlist(w.val(st, "successors", [d, w.h(i)])), w.hlist(w.val(st, "predecessors", [d, w.h(i)]))
                ws, wp = [y for x, y in ref.edges if x == i], [x for x, y in ref.edges if y == i]
                say("successors", None if s_ is None else sorted(s_) == sorted(ws), "successors of %d are %s after %s" % (i, s_, o[0]))
                say("predecessors", None if p_ is None else sorted(p_) == sorted(wp), "predecessors of %d are %s after %s" % (i, p_, o[0]))
                for m, l in (("single_succ", ws), ("single_pred", wp)):
                    v = w.opth(w.val(st, m, [d, w.h(i)]))
                    say(m, None if v is None else v == (l[0] if len(l) == 1 else -1), "%s of %d is wrong" % (m, i))
        if has("rows") or has("levels") and o[0] == "rank":
            m = w.num(w.val(st, "num_levels", [d]))
            if m is None:
                w.ck.undecided("%s:rows" % w.fam, "rows unreadable in %s" % what)
                return
            rows = [w.hlist(w.val(st, "row", [d, Int(k)])) for k in range(m)]
            if None in rows:
                w.ck.undecided("%s:rows" % w.fam, "rows unreadable in %s" % what)
                return
            if has("rows"):
                say("rows", sorted(h for r in rows for h in r) == list(range(ref.n)), "the rows hold %s after %s" % (rows, o[0]))
                v = w.num(w.val(st, "len", [d]))
                say("len", None if v is None else v == ref.n, "len is wrong")
                for k, r in enumerate(rows):
                    for i in r:
                        v = w.num(w.val(st, "level", [d, w.h(i)]))
                        say("level", None if v is None else v == k, "level of %d is %s, its row is %d" % (i, v, k))
                        for fn, wn in (("is_first_in_row", r[0] == i), ("is_last_in_row", r[-1] == i)):
                            b = w.bool(w.val(st, fn, [d, w.h(i), Int(k)]))
                            say(fn, None if b is None else b == wn, "%s of %d is wrong" % (fn, i))
                if o[0] == "level":
                    k = [x for x, r in enumerate(rows) if o[1] in r]
                    say("moved", len(k) == 1 and k[0] == o[2] and (o[3] is None and rows[k[0]][-1] == o[1] or o[3] is not None and rows[k[0]][rows[k[0]].index(o[1]) + 1:][:1] == [o[3]]),
                        "%d was to move to row %d, the rows are %s" % (o[1], o[2], rows))
                    rest = lambda rr: [y for y in ([x for x in r if x != o[1]] for r in rr) if y]
                    say("others stay", rest(rows) == rest(before), "moving one node changes the order of the others: %s" % rows)
                before = rows
            if has("levels") and o[0] == "rank":
                lv = {h: k for k, r in enumerate(rows) for h in r}
                wl = ref.longest()
                say("edges go down", all(lv.get(y, -1) > lv.get(x, 99) for x, y in ref.edges if x != y), "an edge does not go to a lower row: %s" % rows)
                say("as high as possible", [lv.get(i) for i in range(ref.n)] == wl, "rows %s, longest paths %s" % (rows, wl))
            if ref.rows is None:
                ref.rows = [list(r) for r in rows]
        if ref.rows is None:
            ref.rows = []
            for h_, l in enumerate(ref.longest()):
                ref.place(h_, l)
        if has("reach") and o[0] in ("edge", "del") and o is ops[-1]:
            for x in range(ref.n):
                for y in range(ref.n):
                    b = w.bool(w.val(st, "is_reachable", [d, w.h(x), w.h(y)]))
                    say("is_reachable", None if b is None else b == ref.reach(x, y), "is_reachable(%d, %d) is wrong" % (x, y))


def dag_histories(ck, cyclic=False, seed=3, count=120):
    """sequences of operations: every short one over three nodes, and random longer ones"""
    import random
    pairs = list(itertools.product(range(3), repeat=2))
    dagp = [(x, y) for x, y in pairs if x < y] + [(2, 2)]
    alpha = [("edge",) + x for x in (pairs if cyclic else dagp)]
    for a in itertools.product(alpha, repeat=2):
        yield (("nodes", 3),) + a
    if cyclic:
        for a in itertools.product(alpha, repeat=3):
            if a[0] < a[1] < a[2]:
                yield (("nodes", 3),) + a
    small = [("edge", 0, 1), ("edge", 1, 2), ("del", 0, 1), ("del", 1, 2), ("node",), ("rank",), ("level", 1, 1, None), ("level", 0, 2, None)]
    for a in itertools.product(small, repeat=3):
        yield (("nodes", 3),) + a
    r = random.Random(seed)
    for i in range(count * (5 if ck.thorough else 1)):
        ops = [("node",)] * r.randint(1, 2) + [("nodes", r.randint(1, 3))]
        ref = DRef()
        for o in ops:
            for _ in range(o[1] if o[0] == "nodes" else 1):
                ref.n += 1
                ref.place(ref.n - 1, 0)
        for _ in range(r.randint(3, 9)):
            k = r.choice(["edge"] * 5 + ["del", "del", "node", "rank", "level", "level", "before", "before"] + (["clear"] if r.random() < .2 else []))
            if k == "node" or ref.n == 0:
                ops.append(("node",))
                ref.n += 1
                ref.place(ref.n - 1, 0)
            elif k == "edge":
                x, y = r.randrange(ref.n), r.randrange(ref.n)
                if not cyclic and ref.reach(y, x) and x != y:
                    x, y = y, x
                ops.append(("edge", x, y))
                ref.edges.append((x, y))
            elif k == "del":
                e = r.choice(ref.edges) if ref.edges and r.random() < .8 else (r.randrange(ref.n), r.randrange(ref.n))
                ops.append(("del",) + e)
                if e in ref.edges:
                    ref.edges.remove(e)
            elif k == "rank" and not cyclic:
                ops.append(("rank",))
                ref.rows = []
                for h, l in enumerate(ref.longest()):
                    ref.place(h, l)
            elif k == "level":
                o = (r.randrange(ref.n), r.randrange(len(ref.rows) + 2), None)
                ops.append(("level",) + o)
                ref.place(*o)
            elif k == "before" and ref.n > 1:
                x, m = r.sample(range(ref.n), 2)
                o = (x, ref.level(m), m)
                ops.append(("level",) + o)
                ref.place(*o)
            elif k == "clear":
                ops.append(("clear",))
                ref = DRef()
        if cyclic:
            ops.append(("edge", r.randrange(ref.n), r.randrange(ref.n)) if ref.n else ("node",))
        yield tuple(ops)


def run_dag_api(ck, fam, parts, cyclic=False, count=120):
    w = DWorld(ck, fam)
    items = list(dag_histories(ck, cyclic, count=count))
    parallel(ck, items, lambda ck, o: dag_ops(w, o, parts))
    ck.extra["histories"] = len(items)


def run_mirror(ck):
    """D01"""
    run_dag_api(ck, "dag", ("mirror", "panic"))
    run_graphs(ck, "dag", ("mirror",), labels="all", rnd=40)


def run_ranks(ck):
    """D02"""
    run_dag_api(ck, "ranks", ("rows", "panic"))
    run_graphs(ck, "ranks", ("ranks",), rnd=40)


def run_acyclic(ck):
    """D03"""
    run_dag_api(ck, "acyclic", ("reach",), cyclic=True)
    run_graphs(ck, "acyclic", ("acyclic",), labels="none", rnd=100)


def run_levels(ck):
    """D04"""
    run_dag_api(ck, "levels", ("levels",), count=200)
    w = DWorld(ck, "levels")
    items = [(("nodes", n),) + tuple(("edge",) + e for e in es) + (("rank",),) for n, es in layered(150, 23)]
    for n, es in rnd_graphs(250 * (4 if ck.thorough else 1), 29, (5, 8), (5, 12)):
        pi = list(range(n))
        random.Random(str(es)).shuffle(pi)
        items.append((("nodes", n),) + tuple(("edge", pi[min(e)], pi[max(e)]) for e in es) + (("rank",),))
    # long paths with shortcuts, the edges in any order
    r = random.Random(31)
    for k in range(60 * (4 if ck.thorough else 1)):
        n = r.randint(6, 11)
        es = [(i, i + 1) for i in range(n - 1) if r.random() < .9]
        for _ in range(r.randint(1, 4)):
            a, b = sorted(r.sample(range(n), 2))
            es.append((a, b))
        pi = list(range(n))
        r.shuffle(pi)
        r.shuffle(es)
        items.append((("nodes", n),) + tuple(("edge", pi[a], pi[b]) for a, b in es) + (("rank",),))
    for n in (5, 7, 9, 11):
        # every node of a path is also reached directly from its start, before or after
        ch, sh = [(i, i + 1) for i in range(n - 1)], [(0, i) for i in range(2, n)]
        for es in (ch + sh, sh + ch, ch[::-1] + sh, sh + ch[::-1], [(n - 1 - b, n - 1 - a) for a, b in ch + sh], [(n - 1 - b, n - 1 - a) for a, b in sh + ch]):
            for f in (lambda x: x, lambda x: n - 1 - x):
                items.append((("nodes", n),) + tuple(("edge", f(a), f(b)) for a, b in es) + (("rank",),))
    parallel(ck, items, lambda ck, o: dag_ops(w, o, ("levels", "panic")))
    run_graphs(ck, "levels", ("levels",))


# ------------------------------------------------------------------ the optimisers
def crossings(edges, rows):
    """pairs of edges between neighbouring rows that cross (parallel edges count once)"""
    n = 0
    es = set(edges)
    for a, b in zip(rows, rows[1:]):
        l = [(a.index(x), b.index(y)) for x, y in es if x in a and y in b]
        n += sum(1 for (p, q), (r, s) in itertools.combinations(l, 2) if (p < r and q > s) or (p > r and q < s))
    return n


class OWorld(DWorld):
    def __init__(self, ck, fam, which):
        super().__init__(ck, fam)
        names = ck.prog().by_name
        f = [n for n in names if n.startswith("layout::topo::optimizer::%s::" % which) and n.endswith("::optimize")]
        g = [n for n in names if n.startswith("layout::topo::optimizer::%s::" % which) and n.endswith("::new")]
        f = [n for n in f if names[n].raw is not None]
        g = [n for n in g if names[n].raw is not None]
        if not f or not g:
            raise Missing("%s::optimize" % which)
        self.f_opt, self.f_mk = names[f[0]], names[g[0]]

    def setup(self, n, edges, ranked, moves):
        """(path, dag ref) of a dag with these edges, and its rows"""
        r0 = Runner(self.ck, self.f["new"], max_time=10)
        r0.go([])
        p = r0.paths[0]
        d = p.e.heap(p.st, p.ret)
        for name, args in [("new_nodes", [Int(n)])] + [("add_edge", [self.h(x), self.h(y)]) for x, y in edges] + ([("recompute_node_ranks", [])] if ranked else []) + \
                [("update_node_rank_level", [self.h(i), Int(l), self.T.option(self.opt, None if b is None else self.h(b))]) for i, l, b in moves]:
            q = self.call(p.st, name, [d] + args)
            if q is None or q == "panic":
                return None
            p = q
        return p, d

    def rows(self, st, d):
        m = self.num(self.val(st, "num_levels", [d]))
        if m is None:
            return None
        rows = [self.hlist(self.val(st, "row", [d, Int(k)])) for k in range(m)]
        return None if None in rows else rows

    def optimize(self, p, d, time=60, **kw):
        r = Runner(self.ck, self.f_mk, max_time=10)
        r.go([d], st=p.st)
        if len(r.paths) != 1 or r.cut:
            return None
        q = r.paths[0]
        o = q.e.heap(q.st, q.ret)
        r = Runner(self.ck, self.f_opt, max_time=time, unroll=100000, max_rec=20, **kw)
        r.go([o], st=q.st)
        if r.cut or len(r.paths) + len(r.panics) != 1:
            return None
        return r.paths[0] if r.paths else ("panic",) + r.panics[0][1:]


def layered(count, seed, nmax=7):
    """dags given as edges that go from a lower to a higher node number, some drawn dense"""
    import random
    r = random.Random(seed)
    for i in range(count):
        k = r.randint(2, 4)
        sizes = [r.randint(1, 3) for _ in range(k)]
        rows, n = [], 0
        for s in sizes:
            rows.append(list(range(n, n + s)))
            n += s
        es = []
        for a, b in zip(rows, rows[1:]):
            for y in b:
                es.append((r.choice(a), y))
            for x in a:
                for y in b:
                    if r.random() < .35:
                        es.append((x, y))
        if r.random() < .3 and k > 2:
            es.append((rows[0][0], rows[-1][-1]))
        r.shuffle(es)
        # a random naming, so that rows are not sorted
        pi = list(range(n))
        r.shuffle(pi)
        yield n, tuple((pi[x], pi[y]) for x, y in es)


def opt_case(w, it, kind):
    n, es, moves = it
    what = "%d nodes; %s%s" % (n, " ".join("%d->%d" % e for e in es), "; moved %s" % (moves,) if moves else "")
    site = "topo/optimizer.rs"
    s = w.setup(n, es, True, moves)
    if s is None:
        return w.ck.undecided("%s:setup" % w.fam, "the dag cannot be built: %s" % what)
    p, d = s
    before = w.rows(p.st, d)
    e0 = [[w.hlist(w.val(p.st, m, [d, w.h(i)])) for i in range(n)] for m in ("successors", "predecessors")]
    q = w.optimize(p, d)
    if isinstance(q, tuple):
        return w.j.say(p, "panic", False, "the optimiser fails: %s at %s" % q[1:], what, site)
    after = w.rows(q.st, d) if q is not None else None
    if after is None or before is None:
        return w.ck.undecided("%s:run" % w.fam, "no single outcome for %s" % what)
    e1 = [[w.hlist(w.val(q.st, m, [d, w.h(i)])) for i in range(n)] for m in ("successors", "predecessors")]
    say = lambda name, r, msg: w.j.say(q, name, r, msg, what, site)
    say("edges kept", None if None in e1[0] + e1[1] else e0 == e1, "the optimiser changes the edges")
    say("nodes kept", sorted(x for r in after for x in r) == list(range(n)), "the rows are %s afterwards" % after)
    if kind == "cross":
        say("rows permuted", [sorted(r) for r in before] == [sorted(r) for r in after], "rows %s become %s" % (before, after))
        c0, c1 = crossings(es, before), crossings(es, after)
        say("no more crossings", c1 <= c0, "%d crossings become %d" % (c0, c1))
    else:
        lv = {h: k for k, r in enumerate(after) for h in r}
        lw = {h: k for k, r in enumerate(before) for h in r}
        say("edges go down", all(lv[y] > lv[x] for x, y in es if x != y and x in lv and y in lv), "an edge no longer goes down: %s" % after)
        say("not longer", sum(lv.get(y, 0) - lv.get(x, 0) for x, y in es) <= sum(lw[y] - lw[x] for x, y in es), "the edges get longer: %s become %s" % (before, after))


def run_cross(ck):
    """O01"""
    w = OWorld(ck, "cross", "EdgeCrossOptimizer")
    items = [(n, es, ()) for n, es in layered(60 * (5 if ck.thorough else 1), 11)]
    items += [(1, (), ()), (3, (), ()), (2, ((0, 1),), ()), (3, ((0, 1), (1, 2)), ())]
    for es in itertools.product(itertools.product((0, 1), (2, 3)), repeat=2):
        items.append((4, es, ((0, 0, 1),) if es[0] < es[1] else ()))
        items.append((4, es, ()))
    parallel(ck, items, lambda ck, it: opt_case(w, it, "cross"))
    ck.extra["dags"] = len(items)
    run_best(ck, w)
    run_count(ck, w)


def run_best(ck, w):
    """whatever the crossing counts are: the order kept is one of those with the fewest"""
    pre = w.f_opt.n.rsplit("::", 1)[0] + "::"
    cnt, swp = pre + "count_crossed_edges", pre + "swap_crossed_edges"
    names = ck.prog().by_name
    if cnt not in names or swp not in names:
        return ck.undecided("cross:best", "the crossing count is not a function of its own")
    s = w.setup(12, tuple((i, 5 + j) for i in range(5) for j in range(7) if (i + j) % 3 == 0), False, tuple((i, 1, None) for i in range(5, 12)))
    if s is None:
        return ck.undecided("cross:setup", "the dag for the crossing counts cannot be built")
    p, d = s
    r = random.Random(7)
    scripts = []
    for k in range(1, 51):
        for base, at in ((9, 6), (9, 1), (1, 2), (0, 1)) if k in (1, 2, 10, 25, 41, 49, 50) or ck.thorough else ((9, 6), (9, 1)):
            scripts.append([5 if base == 9 else base] + [at if i == k else max(base, 9 if base == 9 else base + 2) for i in range(1, 51)])
    for k in range(60):
        scripts.append([r.randint(0, k % 5 + 1) for _ in range(51)])
    scripts += [[0] + [1] * 50, [1] * 51, [50 - i for i in range(51)], list(range(51)), [2, 1] + [2] * 49, [3] + [2] * 25 + [1] + [2] * 24]

    def one(ck, sc):
        seen, order = {}, []

        def snap(e, st):
            v = d
            while v.k in ("ref", "kref"):
                v = e.loadref(st, v)
            return e.snap(st, w.T.get(v, "ranks"))

        def h(e, st, a, ty, ctx):
            t = snap(e, st)
            if t not in seen:
                seen[t] = sc[min(len(seen), len(sc) - 1)]
            order.append(seen[t])
            return Int(seen[t])
        q = w.optimize(p, d, handlers={cnt: h, swp: lambda e, st, a, ty, ctx: UNIT})
        what = "crossing counts %s" % order[:60]
        if isinstance(q, tuple):
            return w.j.say(p, "panic", False, "the optimiser fails: %s at %s" % q[1:], what, "topo/optimizer.rs")
        if q is None or not order:
            return ck.undecided("cross:best", "the search has no single outcome")
        end = snap(q.e, q.st)
        w.j.say(q, "best kept", None if end not in seen else seen[end] == min(order), "the order kept has %s crossings, of orders with %s" % (seen.get(end), order), what[:80], "topo/optimizer.rs optimize")
    parallel(ck, scripts, one)
    ck.extra["count scripts"] = len(scripts)


def run_count(ck, w):
    """the count of crossings, on simple graphs"""
    cnt = w.f_opt.n.rsplit("::", 1)[0] + "::count_crossed_edges"
    f = ck.prog().by_name.get(cnt)
    if f is None or f.raw is None:
        return ck.undecided("cross:count", "the crossing count is not a function of its own")
    items = [(n, tuple(dict.fromkeys(es))) for n, es in layered(150 * (4 if ck.thorough else 1), 41)]

    def one(ck, it):
        n, es = it
        s = w.setup(n, es, True, ())
        if s is None:
            return ck.undecided("cross:setup", "the dag cannot be built")
        p, d = s
        rows = w.rows(p.st, d)
        r = Runner(ck, w.f_mk, max_time=10)
        r.go([d], st=p.st)
        if rows is None or len(r.paths) != 1 or r.cut:
            return ck.undecided("cross:count", "no single outcome")
        q = r.paths[0]
        r = Runner(ck, f, max_time=20, unroll=100000, max_rec=20)
        r.go([q.e.heap(q.st, q.ret)], st=q.st)
        if len(r.paths) != 1 or r.cut:
            return ck.undecided("cross:count", "no single outcome")
        v = w.num(r.paths[0].ret)
        w.j.say(r.paths[0], "count", None if v is None else v == crossings(es, rows), "the crossings of %s are counted as %s, not %d" % (rows, v, crossings(es, rows)),
                " ".join("%d->%d" % e for e in es), "topo/optimizer.rs count_crossed_edges")
    parallel(ck, items, one)


def run_sink(ck):
    """O02"""
    w = OWorld(ck, "sink", "RankOptimizer")
    items = [(n, es, ()) for n, es in layered(150 * (5 if ck.thorough else 1), 13)]
    p4 = list(itertools.combinations(range(4), 2))
    for k in range(0, 7):
        for es in itertools.combinations(p4, k):
            items.append((4, es, ()))
            items.append((4, tuple((3 - x, 3 - y) for x, y in es), ()))
    for n, es in SHAPES:
        if all(x <= y for x, y in es):
            items.append((n, es, ()))
    for n, es in rnd_graphs(150 * (4 if ck.thorough else 1), 17, (5, 8), (4, 10)):
        items.append((n, tuple((min(e), max(e)) for e in es if e[0] != e[1]), ()))
    parallel(ck, items, lambda ck, it: opt_case(w, it, "sink"))
    ck.extra["dags"] = len(items)


# ------------------------------------------------------------------ moving labels between rows
def run_moved(ck):
    """V03: the pass that moves labels, with every outcome of its comparisons"""
    w = GWorld(ck)
    sub = [n for n in ck.prog().by_name if n.startswith("layout::topo::placer::") and n.endswith("::do_it") and "move_between_rows" not in n]
    real = w.handlers

    def handlers(noop=("cross",), capture=True):
        d = real(("cross",), capture)
        for n in sub:
            d[n] = lambda e, st, a, ty, ctx: UNIT

        def size(e, st, a, ty, ctx):
            i = st.mon.get("g:sizes")
            i = 0 if i is None else i.a[0]
            st.mon["g:sizes"] = Int(i + 1)
            f = w.T.field_ty(w.T.ty("geometry::Point"), "x")
            return PT(w.T, inp("size%d.x" % i, f), FLT(10))
        d["layout::std_shapes::render::get_shape_size"] = size
        return d
    w.handlers = handlers
    fams = [(2, ((0, 1),)), (3, ((0, 1), (1, 2), (0, 2))), (3, ((0, 1), (1, 2), (0, 2), (0, 2))), (4, ((0, 1), (1, 2), (2, 3), (0, 3))), (2, ((0, 1), (0, 1), (1, 0))), (3, ((0, 1), (1, 2), (2, 0), (1, 1)))]
    items = []
    for n, es in fams:
        for lab in itertools.product((0, 1), repeat=len(es)):
            if sum(lab) <= 2:
                items += [(n, es, o, lab) for o in (("TopToBottom", "LeftToRight") if ck.thorough or len(es) < 4 else (("TopToBottom", "LeftToRight")[len(items) % 2],))]
    parallel(ck, items, lambda ck, it: GJudge(ck, w, "moved").run(it[0], it[1], it[2], True, it[3], (False, True), ("labels",)))
    ck.extra["label moves"] = len(items)
