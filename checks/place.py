"""L*, V04, V05: the placement passes on symbolic box sizes"""
import itertools
import random
from fractions import Fraction
from terms import *
from core import *
from sym import *
from common import *
from build import *
from reals import Reals
from graph import GWorld, GJudge, FLT, PT, SHAPES, sequences, rnd_graphs, etext

PL = "layout::topo::placer::"


def size_input(a):
    """sizes, halos and gaps"""
    return a.k == "in" and a.a[0][:2] in ("s:", "h:", "g:")


class PWorld(GWorld):
    """lowered graphs whose boxes have symbolic sizes and halos"""

    def __init__(self, ck):
        super().__init__(ck)
        self.reals = Reals(size_input)
        self.pt_t = self.T.ty("geometry::Point")
        self.num_t = self.T.field_ty(self.pt_t, "x")
        self.labels_wide = False
        self.noop = ("placer", "cross")

    def npt(self, n):
        return PT(self.T, inp(n + ".x", self.num_t), inp(n + ".y", self.num_t))

    def element(self, i, orient, shape=None):
        T = self.T
        if shape is None:
            shape = T.make(self.shape, [inp("n%d.label" % i, self.str)], "Box")
        z = PT(T, FLT(0), FLT(0))
        return T.make(self.elem, {"shape": shape, "look": inp("n%d.look" % i, self.look), "orientation": T.make(self.orient, [], orient),
                                  "pos": T.make(self.pos, {"middle": z, "size": self.npt("s:n%d" % i), "center": z, "halo": self.npt("h:n%d" % i)}),
                                  "properties": inp("n%d.properties" % i, T.field_ty(self.elem, "properties"))})

    def handlers(self, noop=None, capture=True):
        d = super().handlers(self.noop, capture)

        def size(e, st, a, ty, ctx):
            n = st.mon.get("g:sizes")
            n = 0 if n is None else n.a[0]
            st.mon["g:sizes"] = Int(n + 1)
            return PT(self.T, *[mk("fop", "Add", FLT(1), inp("s:c%d.%s" % (n, c), self.num_t)) for c in "xy"])
        d["layout::std_shapes::render::get_shape_size"] = size
        return d

    def lowered(self, n, edges, orient="TopToBottom", opt=True, texts=None):
        """[(Path, vg ref)] with the graph lowered and not yet placed"""
        self.noop = ("placer", "cross")
        return self.run(n, edges, orient, opt, texts or [Lit("")] * len(edges))

    def positions(self, p, vgr):
        s = self.view(p, vgr)
        if s is None:
            return None
        s["pos"] = [self.T.get(e, "pos") for e in s["el"]]
        return s

    def place(self, p, vgr, xs, axis=0):
        """move the middle of element i to coordinate xs[i]"""
        T = self.T
        for i, x in enumerate(xs):
            r = self.askref(p, "layout::topo::layout::VisualGraph::pos_mut", [vgr, self.h(i)])
            if r is None:
                return False
            q, ref = r
            v = q.e.loadref(q.st, ref)
            m = T.get(v, "middle")
            xy = [x if axis == k else T.get(m, "xy"[k]) for k in (0, 1)]
            v2 = T.make(self.pos, {k: (PT(T, *xy) if k == "middle" else T.get(v, k)) for k in ("middle", "size", "center", "halo")})
            q.e.storeref(p.st, ref, v2, None)
        return True

    def ordered(self, s, axis=0):
        """coordinates that keep the boxes of a row in order, with any gaps between them"""
        xs = [None] * s["n"]
        for k, row in enumerate(s["rows"]):
            right = inp("p%d" % k, self.num_t)
            for n, i in enumerate(row):
                b = self.box(s["pos"][i])[axis]
                half = mk("fop", "Sub", self.mid(s["pos"][i], axis), b[0])
                left = mk("fop", "Add", mk("fop", "Add", right, inp("g:%d" % i, self.num_t)), FLT(0.001 if n else 0))
                xs[i] = mk("fop", "Add", left, half)
                right = mk("fop", "Add", xs[i], half)
        return xs

    def stacked(self, s, axis):
        """coordinates that put each row below the one before"""
        ys, bottom = [None] * s["n"], FLT(0)
        for row in s["rows"]:
            h = None
            for i in row:
                b = self.box(s["pos"][i])[axis]
                x = mk("fop", "Sub", self.mid(s["pos"][i], axis), b[0])
                h = x if h is None else mk("fop", "Max", h, x)
            if h is None:
                continue
            y = mk("fop", "Add", bottom, h)
            for i in row:
                ys[i] = y
            bottom = mk("fop", "Add", y, h)
        return ys

    def askref(self, p, name, args):
        r = Runner(self.ck, self.ck.fn(name), max_time=5, handlers=self.hd)
        r.go(args, st=p.st.copy())
        if r.cut or len(r.paths) != 1:
            return None
        return r.paths[0], r.paths[0].ret

    # geometry of a final position: linear forms
    def box(self, pos, halo=True):
        T = self.T
        xy = lambda k: (T.get(T.get(pos, k), "x"), T.get(T.get(pos, k), "y"))
        m, s, h = xy("middle"), xy("size"), xy("halo")
        out = []
        for i in (0, 1):
            half = mk("fop", "Mul", mk("fop", "Add", s[i], h[i]) if halo else s[i], FLT(.5))
            out.append((mk("fop", "Sub", m[i], half), mk("fop", "Add", m[i], half)))
        return out          # [(left, right), (top, bottom)]

    def mid(self, pos, axis=0):
        return self.T.get(self.T.get(pos, "middle"), "xy"[axis])

    def cen(self, pos, axis=0):
        return mk("fop", "Add", self.mid(pos, axis), self.T.get(self.T.get(pos, "center"), "xy"[axis]))

    # ------------------------------------------------------------- running a pass on a lowered graph
    def placed(self, p, vgr, no_layout, real=(), time=20, script=(), medians=True):
        """paths of Placer::layout; passes whose module is not in `real` do nothing (None: all are real)"""
        self.panics, self.cut = [], []
        self.hd = self.handlers()
        for n in self.placer:
            self.hd.pop(n, None)
        if real is not None:
            for n in self.ck.prog().by_name:
                if n.startswith(PL) and n.endswith("::do_it") and not any(PL + m + "::" in n for m in real):
                    self.hd[n] = lambda e, st, a, ty, ctx: UNIT

        def med(e, st, a, ty, ctx):
            n = st.mon.get("g:med")
            n = 0 if n is None else n.a[0]
            st.mon["g:med"] = Int(n + 1)
            return inp("med%d" % n, self.num_t)
        if medians:
            self.hd["layout::core::geometry::weighted_median"] = med

        def seg(e, st, a, ty, ctx):
            n = st.mon.get("g:seg")
            n = 0 if n is None else n.a[0]
            st.mon["g:seg"] = Int(n + 1)
            r = bool(script[min(n, len(script) - 1)]) if script else False
            if r:
                st.mon["g:any"] = Int(1)
            return Bool(r)
        self.hd["layout::core::geometry::segment_rect_intersection"] = seg
        outs = []
        st = p.st.copy()
        new = [f for n, f in self.ck.prog().by_name.items() if n.startswith(PL + "place::Placer::") and n.endswith("::new")]
        lay = [self.ck.prog().by_name[n] for n in self.placer]
        if not new or not lay:
            raise Missing("Placer")
        self.call(new[0], [vgr], st, lambda q: self.call(lay[0], [q.e.heap(q.st, q.ret), Bool(no_layout)], q.st, lambda r: outs.append(r), time))
        return None if self.cut else outs


class PJudge(GJudge):
    site = "topo/placer"

    def geq(self, p, name, x, y, msg, what, strict=False):
        """x >= y on this path: proved for all sizes, or refuted by a sample"""
        w = self.w
        if w.reals.ge(x, y, 0, strict) or w.reals.follows(x, y, q.a if (q := p.st.mon.get("fcmp")) is not None else (), strict):
            return self.say(p, name, True, msg, what, self.site)
        r = sampled(p, lambda v: v(x) > v(y) if strict else v(x) >= v(y) - Fraction(1, 10 ** 9), size_input)
        if r is False and p.st.mon.get("g:any") is not None:
            r = None
        return self.say(p, name, None if r else r, msg, what, self.site)

    def panicked(self, what):
        for st, why, where in self.w.panics:
            p = Path(None, st, None)
            q = st.mon.get("fcmp")
            r = False
            if q is not None:
                r = sampled(p, lambda v: False, size_input)
            if st.mon.get("g:any") is not None or st.mon.get("opaque") is not None:
                r = None
            if r is False:
                self.say(p, "panic", False, "placement fails: %s at %s" % (why, where), what, self.site)
            else:
                self.ck.undecided("%s:panic" % self.fam, "%s at %s (%s)" % (why, where, what), self.site)

    def graph(self, n, edges, orient, mode, parts, opt=True, time=15, seed=0):
        """mode: plain (no layout), bk (alignment pass alone, positions given), fix (edge fixer alone, boxes in order with any gaps), all"""
        w = self.w
        what = "%s; %s" % (etext(n, edges, orient, opt), {"plain": "no layout", "bk": "alignment from given places", "fix": "edge fixer", "all": "all passes"}[mode])
        ps = w.lowered(n, edges, orient, opt)
        if ps is None:
            return self.ck.undecided("%s:cut" % self.fam, what, self.site)
        ax = 0 if orient == "TopToBottom" else 1
        real = {"plain": None, "all": None, "bk": ("bk",), "fix": ("edge_fixer",)}[mode]
        scripts = [(), (1,), (1, 0), (0, 1, 1, 0), (1, 1, 1, 0)] if mode in ("fix", "all") else [()]
        for p, vgr in ps:
            s0 = w.positions(p, vgr)
            if s0 is None:
                self.ck.undecided("%s:view" % self.fam, what, self.site)
                continue
            if mode == "bk":
                rnd = random.Random(seed)
                xs = [0] * s0["n"]
                for row in s0["rows"]:
                    x = rnd.randint(0, 9)
                    for i in row:
                        x += rnd.choice((1, 2, 3, 5, 8))
                        xs[i] = FLT(x)
                w.place(p, vgr, xs, ax)
            if mode == "fix":
                w.place(p, vgr, w.ordered(s0, ax), ax)
            if mode in ("bk", "fix"):
                w.place(p, vgr, w.stacked(s0, 1 - ax), 1 - ax)
            for script in scripts:
                outs = w.placed(p, vgr, mode == "plain", real, time, script, mode != "bk")
                self.panicked(what)
                if outs is None:
                    self.ck.undecided("%s:cut" % self.fam, what, self.site)
                    break
                for q in outs:
                    s = w.positions(q, vgr)
                    if s is None or len(s["rows"]) != len(s0["rows"]):
                        self.ck.undecided("%s:view" % self.fam, what, self.site)
                        continue
                    for part in parts:
                        getattr(self, "q_" + part)(q, s0, s, ax, what, mode)
                if not any(q.st.mon.get("g:seg") is not None for q in outs):
                    break
        self.ck.ok("%s:graph" % self.fam, what)

    def name(self, s, i):
        return "%s %d" % ("connector" if self.is_conn(s["el"][i]) else "node", i)

    # L01
    def q_rows(self, q, s0, s, ax, what, mode):
        w = self.w
        rows = s["rows"]
        for k, row in enumerate(rows):
            for a, b in zip(row, row[1:]):
                if self.is_conn(s["el"][a]) or self.is_conn(s["el"][b]):
                    continue
                r = w.reals.form(w.mid(s["pos"][a], 1 - ax), w.mid(s["pos"][b], 1 - ax))
                r = True if not r[1] and abs(r[0]) < Fraction(1, 10 ** 6) else sampled(q, lambda v: abs(v(w.mid(s["pos"][a], 1 - ax)) - v(w.mid(s["pos"][b], 1 - ax))) < Fraction(1, 10 ** 6), size_input)
                self.say(q, "level", r, "nodes %d and %d of one rank are not centred on one line" % (a, b), what, self.site)
            if k + 1 < len(rows):
                for a in row:
                    for b in rows[k + 1]:
                        if self.is_conn(s["el"][a]) or self.is_conn(s["el"][b]):
                            continue
                        self.geq(q, "below", w.box(s["pos"][b])[1 - ax][0], w.box(s["pos"][a])[1 - ax][1], "%s of the next rank does not lie below %s" % (self.name(s, b), self.name(s, a)), what)

    # L02
    def q_order(self, q, s0, s, ax, what, mode):
        w = self.w
        for row in s["rows"]:
            nodes = [i for i in row if not self.is_conn(s["el"][i])]
            for a, b in zip(nodes, nodes[1:]):
                self.geq(q, "apart", w.box(s["pos"][b])[ax][0], w.box(s["pos"][a])[ax][1], "%s overlaps %s, its neighbour in the rank, or stands on its wrong side" % (self.name(s, b), self.name(s, a)), what, True)
            for a, b in zip(row, row[1:]):
                if self.is_conn(s["el"][a]) == self.is_conn(s["el"][b]) is False:
                    continue
                for c, (x, y) in ((a, (w.cen(s["pos"][a], ax), w.box(s["pos"][b])[ax][0])), (b, (w.box(s["pos"][a])[ax][1], w.cen(s["pos"][b], ax)))):
                    if self.is_conn(s["el"][c]):
                        self.geq(q, "between", y, x, "the middle of %s is not between its neighbours in the rank" % self.name(s, c), what)

    # L03
    def q_corner(self, q, s0, s, ax, what, mode):
        w = self.w
        els = [i for row in s["rows"] for i in row]
        nodes = [i for i in els if not self.is_conn(s["el"][i])]
        low = lambda i, k: w.box(s["pos"][i])[k][0]
        for i in nodes:
            self.geq(q, "side", low(i, ax), FLT(0), "%s lies %s the corner of the drawing" % (self.name(s, i), ("left of", "above")[ax]), what)
            if mode in ("plain", "all"):
                self.geq(q, "start", low(i, 1 - ax), FLT(0), "%s lies %s the corner of the drawing" % (self.name(s, i), ("left of", "above")[1 - ax]), what)
        if len(nodes) == len(els) and els:
            eps = Fraction(1, 100)
            for k in (0, 1):
                if k == ax or mode in ("plain", "all"):
                    r = sampled(q, lambda v: min(v(low(i, k)) for i in els) < eps, size_input)
                    if r is not None:            # else: no inputs lead along this path
                        self.say(q, "flush", r, "the drawing does not begin at its %s edge" % ("left", "top")[k], what, self.site)

    # V04
    def q_kept(self, q, s0, s, ax, what, mode):
        w, T = self.w, self.T
        for i in range(s["n"]):
            a, b = s0["el"][i], s["el"][i]
            for f in ("shape", "look", "orientation", "properties"):
                self.say(q, "field", self.same(q, T.get(a, f), T.get(b, f)), "placement changed the %s of %s" % (f, self.name(s, i)), what, self.site)
            for f in ("size", "halo", "center"):
                for c in "xy":
                    x, y = T.get(T.get(s0["pos"][i], f), c), T.get(T.get(s["pos"][i], f), c)
                    self.say(q, "size", numsame(q, x, y), "placement changed the %s of %s" % (f, self.name(s, i)), what, self.site)
        for f in ("succ", "pred", "rows"):
            self.say(q, "graph", s0[f] == s[f], "placement changed the graph: %s is %s, was %s" % (f, s[f], s0[f]), what, self.site)


# ------------------------------------------------------------------ families
def items_of(ck, plain, bk, fix, every):
    """[(n, edges, orient, mode, seed)]"""
    k = 4 if ck.thorough else 1
    sm = [g for g in SHAPES if len(g[1]) <= 7]
    out = []
    for i, (n, es) in enumerate(sm + list(rnd_graphs(plain * k, 3, (2, 6), (1, 9)))):
        out.append((n, es, ("TopToBottom", "LeftToRight")[i % 2], "plain", i))
    for i, (n, es) in enumerate(list(SHAPES) + list(rnd_graphs(bk * k, 5, (3, 6), (3, 9)))):
        out.append((n, es, ("TopToBottom", "LeftToRight")[i % 2], "bk", i))
    tiny = [(2, ()), (3, ()), (1, ((0, 0),)), (2, ((0, 1),)), (3, ((0, 1), (1, 2), (0, 2))), (3, ((0, 1), (0, 2))), (3, ((0, 2), (1, 2))), (4, ((0, 1), (1, 2), (2, 3), (0, 3))), (3, ((0, 1), (1, 2), (2, 0)))]
    for i, (n, es) in enumerate(tiny + list(rnd_graphs(fix * k, 9, (2, 5), (2, 5)))):
        out.append((n, es, ("TopToBottom", "LeftToRight")[i % 2], "fix", i))
    whole = [(1, ()), (2, ((0, 1),)), (6, ((0, 1), (1, 2), (2, 3), (3, 4), (4, 5))), (2, ()), (3, ()), (4, ((0, 1), (0, 2), (3, 3))), (3, ((0, 1), (0, 2)))][:every]
    for n, es in whole:
        for o in ("TopToBottom", "LeftToRight"):
            out.append((n, es, o, "all", 0))
    return out


def run_place(ck, fam, part, *counts):
    w = PWorld(ck)
    items = items_of(ck, *counts)
    items.sort(key=lambda it: ("all", "fix", "bk", "plain").index(it[3]))

    def one(ck, it):
        n, es, o, mode, seed = it
        PJudge(ck, w, fam).graph(n, es, o, mode, (part,), seed=seed)
    parallel(ck, items, one)
    ck.extra["graphs"] = len(items)


def run_rows(ck):
    """L01"""
    run_place(ck, "ranks-placed", "rows", 40, 25, 8, 6)


def run_order(ck):
    """L02"""
    run_place(ck, "in-rank", "order", 25, 60, 12, 7)


def run_kept(ck):
    """V04"""
    run_place(ck, "kept", "kept", 30, 25, 6, 3)


def run_corner(ck):
    """L03"""
    run_place(ck, "corner", "corner", 30, 25, 8, 7)


TERM = type(FLT(0))


def turned(t, memo):
    """the term with the names of inputs turned: .x for .y"""
    if t.k == "in":
        n = t.a[0]
        if isinstance(n, str) and n[-2:] in (".x", ".y"):
            r = mk("in", n[:-1] + "xy"[n[-1] == "x"], *t.a[1:])
            r.ty = t.ty
            return r
        return t
    if t in memo:
        return memo[t]
    f = lambda a: turned(a, memo) if isinstance(a, TERM) else tuple(f(x) for x in a) if isinstance(a, tuple) else a
    r = mk(t.k, *[f(a) for a in t.a])
    if getattr(t, "ty", None) is not None:
        r.ty = t.ty
    memo[t] = r
    return r


def run_turned(ck):
    """L04: the left-to-right layout is the top-to-bottom layout turned"""
    w = PWorld(ck)
    fam, site = "turned", "topo/placer/place.rs Placer::layout"
    seen = set()
    items = []
    for it in items_of(ck, 25, 12, 5, 7):
        if it[:2] + it[3:4] not in seen:
            seen.add(it[:2] + it[3:4])
            items.append(it)
    items.sort(key=lambda it: ("all", "fix", "bk", "plain").index(it[3]))

    def one(ck, it):
        n, es, o, mode, seed = it
        j = PJudge(ck, w, fam)
        what = "%s; %s" % (etext(n, es, "both directions", True), mode)
        res = []
        for orient in ("TopToBottom", "LeftToRight"):
            ps = w.lowered(n, es, orient, True)
            if ps is None or len(ps) != 1:
                return ck.undecided(fam + ":cut", what, site)
            ax = 0 if orient == "TopToBottom" else 1
            p, vgr = ps[0]
            s0 = w.positions(p, vgr)
            if s0 is None:
                return ck.undecided(fam + ":view", what, site)
            if mode in ("bk", "fix"):
                rnd = random.Random(seed)
                xs = [0] * s0["n"]
                for row in s0["rows"]:
                    x = rnd.randint(0, 9)
                    for i in row:
                        x += rnd.choice((1, 2, 3, 5, 8))
                        xs[i] = FLT(x)
                w.place(p, vgr, xs if mode == "bk" else w.ordered(s0, ax), ax)
                w.place(p, vgr, w.stacked(s0, 1 - ax), 1 - ax)
            outs = w.placed(p, vgr, mode == "plain", {"plain": None, "all": None, "bk": ("bk",), "fix": ("edge_fixer",)}[mode], 20, (), mode != "bk")
            if outs is None:
                return ck.undecided(fam + ":cut", what, site)
            res.append([(q, w.positions(q, vgr)) for q in outs])
        a, b = res
        if len(a) != len(b) or any(s is None for q, s in a + b):
            return ck.undecided(fam + ":paths", what, site)
        memo = {}
        for (q, s), (r, t) in zip(a, b):
            if len(s["rows"]) != len(t["rows"]) or s["n"] != t["n"]:
                j.say(r, "graph", False, "the two directions lay out different graphs", what, site)
                continue
            for i in range(s["n"]):
                for k in (0, 1):
                    x, y = w.mid(s["pos"][i], k), turned(w.mid(t["pos"][i], 1 - k), memo)
                    if fsame(x, y):
                        j.say(q, "place", True, "", what, site)
                        continue
                    # a definite difference: on inputs of both paths
                    fa, fb = q.st.mon.get("fcmp"), r.st.mon.get("fcmp")
                    z = q.st.copy()
                    l = list(fa.a if fa is not None else ()) + [turned(c, memo) for c in (fb.a if fb is not None else ())]
                    if l:
                        z.mon["fcmp"] = mk("lst", *l)
                    d = sampled(Path(q.e, z, None), lambda v: abs(v(x) - v(y)) <= Fraction(1, 10 ** 6), size_input)
                    j.say(r, "place", None if d is None and not l else d if d is not None else True, "%s is not where the top-to-bottom layout has it, turned" % j.name(s, i), what, site)
    parallel(ck, items, one)
    ck.extra["graphs"] = len(items)
