"""N01: the same input gives the same bytes: no ambient input, no order of a hash table in the result"""
import itertools
import re
from terms import *
from core import *
from sym import *
from common import *
from build import *
import intrin
import builder
import svg
import place
from effects import Graph, effect_of, short
from graph import etext, rnd_graphs

AMBIENT = ("clock", "threads", "random numbers", "sockets", "foreign code", "thread-local state", "processes", "environment", "files")
ITER = re.compile(r"^(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference|fmt)$")


def walks(p, td):
    if not ITER.match(td["t"].rsplit("::", 1)[-1]):
        return False
    for x in td.get("a", [])[:1]:
        t = p.tys[x] if isinstance(x, int) else None
        while t is not None and t["k"] == "ref":
            t = p.tys[t["e"]]
        if t is not None and t["k"] == "adt" and re.search(r"\bHash(Map|Set)$", t["n"]):
            return True
    return re.search(r"\bHash(Map|Set)(::)?<", td["t"]) is not None or re.search(r"\bHash(Map|Set)::\w+$", td["t"]) is not None


def casts(x, out):
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, list):
        for y in x:
            casts(y, out)
    elif isinstance(x, str) and ("ExposeProvenance" in x or "PointerExposeAddress" in x):
        out.append(x)


def run_ambient(ck):
    """no function of the library reads anything but its arguments"""
    p = ck.prog()
    g = Graph(p)
    saves = g.only_from(lambda n: short(n) == "save_to_file")
    sites = []
    for f in g.local:
        bad = False
        for td, sp in g.ext[f.n]:
            ef = effect_of(p, td)
            what, n = ef if ef else (None, None)
            if what == "random numbers" and re.search(r"Hash(Map|Set)", td["d"]) and not re.search(r"hash_one|build_hasher|DefaultHasher", td["t"]):
                what = None
            if what is None and re.search(r"^<?(std|core)::fmt::Pointer\b|ptr::(const_ptr|mut_ptr)::.*::(addr|expose_provenance)$|type_name|std::any::TypeId", td["t"]):
                what, n = "addresses", td["t"]
            if what in AMBIENT + ("addresses",) and not (what == "files" and f.n in saves):
                bad = True
                ck.violation("ambient:%s:%s" % (what, f.n), "%s depends on %s (%s), reached by %s" % (f.n, what, n, " -> ".join(g.path_to(f.n))), p.line(sp) if sp else p.line(f.span))
            if walks(p, td):
                sites.append((f, td["t"], p.line(sp) if sp else p.line(f.span)))
        c = []
        casts(f.raw["bbs"], c)
        if c:
            bad = True
            ck.violation("ambient:addresses:%s" % f.n, "%s turns an address into a number" % f.n, p.line(f.span))
        if not bad:
            ck.ok("ambient:function", f.n)
    return sites


class Orders:
    """outcomes of one run under all orders of its hash tables"""

    def __init__(self, ck, fam, site):
        self.ck, self.fam, self.site = ck, fam, site

    def judge(self, outs, what):
        """outs: [(Path, [(name, term)])]"""
        ck = self.ck
        for k, v in intrin.MAP_HITS.items():
            if v & 2:
                ck.ok("order:walked both ways: %s" % k, what)
        intrin.MAP_HITS.clear()
        groups = {}
        for p, parts in outs:
            groups.setdefault(p.st.mon.get("fcmp"), []).append((p, parts))
        for l in groups.values():
            p0, first = l[0]
            for p, parts in l[1:]:
                r = len(parts) == len(first) or False
                bad = "number of results"
                if r:
                    for (n, x), (n2, y) in zip(first, parts):
                        s = x is y or same(p.e, p.st, strip(p0.e, p0.st, x), strip(p.e, p.st, y))
                        if s is False:
                            r, bad = False, n
                            break
                        if s is None:
                            r, bad = None, n
                if p.opaque is not None and r is False:
                    r = None
                if r is True:
                    ck.ok("%s:same in every order" % self.fam, what)
                elif r is False:
                    ck.violation("%s:order" % self.fam, "the order of a hash table shows in %s: %s" % (bad, what), self.site, trace_of(ck.prog(), p.st))
                else:
                    ck.undecided("%s:order" % self.fam, "%s: %s" % (bad, what), self.site)
            if len(l) == 1:
                ck.ok("%s:one outcome" % self.fam, what)


def strip(e, st, x):
    return builder.strip(e, st, x)


def run_builder(ck):
    w = builder.World(ck)
    o = Orders(ck, "builder", "gv/builder.rs GraphBuilder")

    def lists():
        a, b, c, d = [w.s("n%d" % i) for i in range(4)]
        v = [w.s("v%d" % i) for i in range(6)]
        N = lambda x, *l: ("node", x, None, list(l))
        lab = lambda i: (Lit("label"), v[i])
        yield (a, b, c), [N(a), N(b), N(c)]
        yield (a, b, c), [N(a, lab(0)), N(b, lab(1)), ("edge", [(c, None), (a, None)], ">", [])]
        yield (a, b, c, d), [("edge", [(a, None), (b, None), (c, None), (d, None)], ">->", [lab(0)])]
        for (k1, x1), (k2, x2) in itertools.combinations((("color", "red"), ("fillcolor", "#123456"), ("width", "3"), ("fontsize", "20"), ("shape", "circle"), ("style", "dashed"), ("label", "hello")), 2):
            at = [(Lit(k1), Lit(x1)), (Lit(k2), Lit(x2))]
            yield (a, b), [N(a), N(b), N(a, *at)]
            yield (a, b), [("attr", "node", at), N(a), N(b), N(a, (Lit(k1), Lit("7")))]
            yield (a, b), [N(a), ("attr", "edge", at), ("attr", "node", at), ("edge", [(a, None), (b, None)], ">", []), N(a)]
        l = [(Lit(k), v[i]) for i, k in enumerate(("label", "key", "other", "color"))]
        yield (a, b), [N(a, *l), N(a), N(a, *l), ("attr", "node", l), ("attr", "edge", l), N(a), ("edge", [(a, None), (b, None)], ">", l)]
        yield (a, b), [("attr", "graph", [(Lit("rankdir"), Lit("LR")), (Lit("size"), v[0])]), N(a), N(b)]
        yield (a, b, c), [("sub", [("attr", "node", [lab(0), (Lit("color"), v[1])]), N(a), ("sub", [N(b, lab(2)), N(c)])]), N(b)]

    def one(ck, it):
        names, s = it
        w.panics = []
        outs = w.run(s, names, time=12)
        if outs is None:
            ck.undecided("builder:cut", builder.text(s))
            return
        # the paths of one input differ by the orders and by what the values are: compare those that agree on the values
        groups = {}
        for p, nodes, edges, d in outs:
            key = frozenset((k, v) for k, v in p.st.facts.items() if known(k))
            parts = [("the element of node %d" % i, x) for i, x in enumerate(nodes)] + [("edge %d" % i, x) for i, x in enumerate(edges)]
            if d is not None:
                parts.append(("the orientation", d))
            groups.setdefault(key, []).append((p, parts))
        for l in groups.values():
            o.ck = ck
            o.judge(l, builder.text(s))
    parallel(ck, list(lists()), one)


def known(t):
    """a fact about the inputs only"""
    if isinstance(t, T):
        return t.k != "sym" and all(known(x) for x in t.a)
    if isinstance(t, tuple):
        return all(known(x) for x in t)
    return True


def run_svg(ck):
    p = ck.prog()
    W = svg.writer(ck)
    new = ck.fn("layout::%s::new" % svg.WN)
    fin = ck.fn("layout::%s::finalize" % svg.WN)
    text, clip, rect = [svg.method(ck, m) for m in ("draw_text", "create_clip", "draw_rect")]
    T = Types(ck)
    look_t = p.adt("style::StyleAttr")[0]
    cut = []
    names = [n for n, _ in p.tys[look_t]["v"][0]["f"]]
    outs = []

    def call(f, args, st, nxt, time=20):
        r = Runner(ck, f, max_time=time, unroll=60)
        r.e.map_orders = True
        r.go(args, nxt, st=st)
        if r.cut:
            cut.append(f.n)

    def args_of(f, m, k, look):
        out = []
        for i in range(1, f.nargs):
            t = svg.locs(f)[i + 1][0]
            td = p.tys[t]
            if td["k"] == "ref" and td["e"] == look_t:
                out.append(kref(look))
            elif td["k"] == "ref" and p.tys[td["e"]]["k"] == "str":
                out.append(kref(Lit("t%d" % k)))
            elif td["k"] == "adt" and td["n"].endswith("Option"):
                out.append(agg(t, 0, []))
            elif td["k"] == "adt" and td["n"].endswith("String"):
                out.append(Lit(""))
            else:
                out.append(inp("%s%d.%d" % (m, k, i), t))
        return out
    sizes = [3, 11, 700, 25, 14]

    def look(k):
        vs = []
        for i, (n, t) in enumerate(p.tys[look_t]["v"][0]["f"]):
            if n == "font_size":
                vs.append(Int(sizes[k % len(sizes)]))
            elif p.tys[t]["k"] == "adt" and p.tys[t]["n"].endswith("Option"):
                vs.append(agg(t, 0, []))
            else:
                vs.append(inp("look%d.%s" % (k, n), t))
        return agg(look_t, 0, vs)

    def steps(q, ref, todo):
        if not todo:
            call(fin, [ref], q.st, lambda z: outs.append((z, [("the document", z.ret)])))
            return
        f, m, k = todo[0]
        call(f, [ref] + args_of(f, m, k, look(k)), q.st, lambda z: steps(z, ref, todo[1:]))
    o = Orders(ck, "svg", "backends/svg.rs SVGWriter")
    for label, todo in (("five font sizes", [(text, "text", k) for k in range(5)]), ("two font sizes", [(text, "text", 0), (text, "text", 1)]),
                        ("clips and boxes", [(clip, "clip", 0), (rect, "rect", 1), (clip, "clip", 2), (text, "text", 1)])):
        del outs[:], cut[:]
        r0 = Runner(ck, new, max_time=10)
        r0.go([], lambda q: steps(q, q.e.heap(q.st, q.ret), todo))
        if cut or not outs:
            ck.undecided("svg:cut", "%s: not all paths of %s followed" % (label, cut[:2]))
            continue
        o.judge(outs, label)


def run_graph(ck):
    w = place.PWorld(ck)

    def call(f, args, st, nxt, time=20):
        r = Runner(ck, f, max_time=time, handlers=w.hd, max_rec=14, unroll=200)
        r.e.reals, r.e.keep_fcmp, r.e.map_orders = w.reals, w.reals is not None, True
        r.go(args, nxt, st=st)
        if r.cut:
            w.cut.append(f.n)
        w.panics += r.panics
    w.call = call
    o = Orders(ck, "graph", "topo")
    fam = [(3, [(0, 1), (0, 2)]), (4, [(0, 2), (1, 2), (1, 3), (0, 3)]), (4, [(0, 1), (1, 2), (2, 3), (0, 3)])] + [(n, e) for n, e in rnd_graphs(12, 5, (4, 6), (4, 7))]

    def one(ck, it):
        n, edges = it
        o.ck = ck
        w.noop = ("placer",)
        for part in ("lowered", "placed"):
            outs = w.run(n, edges, "TopToBottom", True, [Lit("")] * len(edges), time=15)
            res = []
            for p, vgr in outs or []:
                if part == "lowered":
                    ps = [(p, vgr)]
                else:
                    ps = [(q, vgr) for q in (w.placed(p, vgr, False, time=10) or [])]
                for q, v in ps:
                    s = w.view(q, v)
                    if s is not None:
                        res.append((q, [("element %d" % i, e) for i, e in enumerate(s["el"])] + [("the rows", tup(*[tup(*[Int(x) for x in r]) for r in s["rows"]]))]))
            if not res:
                ck.undecided("graph:cut", "%s not followed" % part)
                continue
            o.judge(res, "%s %s" % (part, etext(n, edges, "TopToBottom", True)))
            w.noop = ("placer", "cross")
    parallel(ck, fam, one)


AREAS = [("builder", re.compile(r"gv::builder|adt::map"), run_builder), ("svg", re.compile(r"backends::svg"), run_svg), ("graph", re.compile(r"topo::|adt::dag|std_shapes::"), run_graph)]


def run_determ(ck):
    """N01"""
    sites = run_ambient(ck)
    ck.extra["walks over hash tables"] = ["%s in %s" % (t, f.n) for f, t, _ in sites][:20]
    todo = {}
    for f, t, line in sites:
        a = next((x for x in AREAS if x[1].search(f.n)), None)
        if a is None:
            ck.undecided("order:%s" % f.n, "walks a hash table (%s)" % t, line)
        else:
            todo.setdefault(a[0], (a, []))[1].append((f, t, line))
    for name, (a, l) in todo.items():
        a[2](ck)
        for f, t, line in l:
            if not any(k == "order:walked both ways: %s" % f.n for k in ck.obl):
                ck.undecided("order:%s" % f.n, "no run walks the hash table at %s with two entries or more (%s)" % (line, t), line)
