"""C01: what a function does on an input of three times the size stays within a power of what it does on the input: nothing doubles
with each node, scope or field. The work is the number of basic blocks on the one abstract path of the call."""
from terms import *
from core import *
from sym import *
from common import *
from build import *
from graph import GWorld, DWorld, FLT, PT
from shapes import SWorld, EL, RD
from parser import PX
import builder

SMALL, LARGE = 4, 12


class Work:
    """blocks on the paths of a run of calls"""

    def __init__(self, ck, limit):
        self.ck, self.limit, self.steps, self.over, self.bad = ck, limit, 0, False, None

    def call(self, f, args, st=None, handlers=None, **kw):
        """the state and value after a call, or None"""
        r = Runner(self.ck, f, max_time=60, max_rec=400, unroll=100000, handlers=handlers)
        e = r.e
        e.max_states = 10 ** 7
        e.gen_lists = False
        if self.limit is not None:
            e.max_steps = self.limit - self.steps
        for k, v in kw.items():
            setattr(e, k, v)
        a = [r.cell("a%d" % i, x[1]) if isinstance(x, tuple) and x and x[0] == "ref" else x for i, x in enumerate(args)] if st is None else args
        r.go(a, st=st)
        self.steps += e.stats["steps"]
        if self.limit is not None and self.steps >= self.limit:
            self.over = True
            return None
        if r.cut or len(r.paths) != 1 or r.panics:
            self.bad = "%d paths, %d panics%s of %s" % (len(r.paths), len(r.panics), ", cut" if r.cut else "", f.short)
            return None
        return r.paths[0]


def run_growth(ck):
    items = ["search", "verify", "ranks", "lower", "lower crossings", "parse", "attributes", "chain", "build", "record", "size", "size square", "draw", "draw left", "outline", "tree", "lex"]
    parallel(ck, items, one)
    ck.extra["families"] = len(items)


def one(ck, name):
    k = SMALL
    base = Work(ck, None)
    CASES[name.split()[0]](ck, base, k, name)
    if base.bad or not base.steps:
        ck.undecided("work:" + name, base.bad or "nothing done")
        return
    # small inputs have a fixed part; what counts is the factor by which the work grows
    factor = 90 if name.startswith("lower") else 40
    two = Work(ck, factor * max(base.steps, 100))
    CASES[name.split()[0]](ck, two, LARGE, name)
    if os.environ.get("SHOW"): print(name, base.steps, two.steps, two.steps / base.steps)
    if two.over:
        ck.violation("work:" + name, "the work grows more than %d times when the input becomes three times as large (%s): %d blocks for %d, more than %d for %d" % (factor, WHAT[name.split()[0]], base.steps, k, two.limit, LARGE), name)
        return
    if two.bad:
        ck.undecided("work:" + name, two.bad)
        return
    ck.ok("the work of %s does not double with each part" % name, "%d blocks for size %d, %d for size %d" % (base.steps, SMALL, two.steps, LARGE))


def diamonds(k):
    """node 3i leads to 3i+1 and 3i+2, and both to 3i+3"""
    return [e for i in range(k) for e in ((3 * i, 3 * i + 1), (3 * i, 3 * i + 2), (3 * i + 1, 3 * i + 3), (3 * i + 2, 3 * i + 3))]


def on_dag(what):
    def case(ck, work, k, name):
        w = DWorld(ck, "growth")
        free = Work(ck, None)
        p = free.call(w.f["new"], [])
        if p is None:
            work.bad = free.bad
            return
        d = p.e.heap(p.st, p.ret)
        ops = [("new_nodes", [d, Int(3 * k + 2)])] + [("add_edge", [d, w.h(i), w.h(j)]) for i, j in diamonds(k)]
        for n, a in ops:
            p = free.call(w.f[n], a, st=p.st)
            if p is None:
                work.bad = free.bad
                return
        if what == "is_reachable":
            # not reachable, downwards and upwards
            for x, y in ((0, 3 * k + 1), (0, 3 * k), (3 * k, 0), (1, 2)):
                if work.call(w.f[what], [d, w.h(x), w.h(y)], st=p.st.copy()) is None:
                    return
        else:
            work.call(w.f[what], [d], st=p.st.copy())
    return case


def lower(ck, work, k, name):
    w = GWorld(ck)
    hd = w.handlers(noop=("placer",) if "crossings" in name else ("placer", "cross"))
    free = Work(ck, None)
    p = free.call(w.f_new, [w.T.make(w.orient, [], "TopToBottom")], handlers=hd)
    if p is None:
        work.bad = free.bad
        return
    g = p.e.heap(p.st, p.ret)
    for i in range(3 * k + 1):
        p = free.call(w.f_node, [g, w.element(i, "TopToBottom")], st=p.st, handlers=hd) if p else None
    for n, (i, j) in enumerate(diamonds(k)):
        p = free.call(w.f_edge, [g, w.mkarrow(n, Lit("")), w.h(i), w.h(j)], st=p.st, handlers=hd) if p else None
    if p is None:
        work.bad = free.bad
        return
    rb = p.e.heap(p.st, mk("app", "backend"))
    work.call(w.f_do, [g, Bool(False), Bool(False), Bool(False), rb], st=p.st, handlers=hd)


def on_text(make):
    def case(ck, work, k, name):
        f_new, f_proc = ck.fn(PX + "parser::DotParser::new"), ck.fn(PX + "parser::DotParser::process")
        p = work.call(f_new, [("ref", Lit(make(k)))])
        if p is not None:
            work.call(f_proc, [p.e.heap(p.st, p.ret)], st=p.st)
    return case


def lex(ck, work, k, name):
    f_new, f_next = ck.fn(PX + "lexer::Lexer::from_string"), ck.fn(PX + "lexer::Lexer::next_token")
    t = " /* %s */ // %s\n \"%s\" %s -%s" % ("*x" * k, "/*" * k, "\\n\\\\" * k, "ab9_" * k, "1.5" * k)
    p = work.call(f_new, [("ref", Lit(t))])
    if p is None:
        return
    lx = p.e.heap(p.st, p.ret)
    for _ in range(4):
        p = work.call(f_next, [lx], st=p.st)
        if p is None:
            return


def build(ck, work, k, name):
    w = builder.World(ck)
    s = [("node", Lit("z"), None, ())]
    for i in range(k):
        s = [("attr", "node", [(Lit("color"), Lit("red"))]), ("node", Lit("n%d" % i), None, [(Lit("label"), Lit("x"))]), ("edge", [(Lit("n%d" % i), None), (Lit("z"), None)], ">", []), ("sub", s), ("sub", [])]
    hd = w.handlers()
    p = work.call(w.f_new, [])
    if p is None:
        return
    b = p.e.heap(p.st, p.ret)
    g = p.e.heap(p.st, w.mk.mk_graph(s))
    p = work.call(w.f_visit, [b, g], st=p.st, handlers=hd)
    if p is not None:
        work.call(w.f_get, [b], st=p.st, handlers=hd)


def record(ck, work, k, name):
    f = ck.fn("layout::gv::record::parse_record_string")
    work.call(f, [("ref", Lit("{a|" * k + "{<p>b}" + "|c}" * k))])


def rec_of(w, k):
    optp = [t for v in w.T.variants(w.rec) if v["n"] == "Text" for n, t in v["f"]][1]
    txt = lambda s: w.T.make(w.rec, [Lit(s), w.T.option(optp, Lit(s))], "Text")
    r = txt("x")
    for i in range(k):
        r = w.T.make(w.rec, [vec([txt("a%d" % i), r, txt("b%d" % i)])], "Array")
    return w.sh("Record", r)


def size(ck, work, k, name):
    w = SWorld(ck, "growth")
    for o in ("TopToBottom", "LeftToRight"):
        work.call(ck.fn(RD + "get_shape_size"), [w.T.make(w.orient, [], o), ("ref", rec_of(w, k)), Int(14), Bool("square" in name)])


def element(w, k, orient):
    pt = lambda x, y: PT(w.T, FLT(x), FLT(y))
    pos = w.T.make(w.pos_t, {"middle": pt(5000, 5000), "size": pt(9000, 4000), "center": pt(0, 0), "halo": pt(0, 0)})
    return w.element("n", rec_of(w, k), orient, pos=pos, look=w.look("look", font_size=Int(14), rounded=Int(0)))


def draw(ck, work, k, name):
    w = SWorld(ck, "growth")
    work.call(ck.fn(EL + "render"), [("ref", element(w, k, "LeftToRight" if "left" in name else "TopToBottom")), Bool(False), ("ref", mk("app", "backend"))], handlers=w.handlers())


def outline(ck, work, k, name):
    w = SWorld(ck, "growth")
    f = ck.fn(EL + "get_connector_location")
    port = [t for v in w.T.variants(w.rec) if v["n"] == "Text" for n, t in v["f"]][1]
    pt = PT(w.T, FLT(1), FLT(2))
    work.call(f, [("ref", element(w, k, "TopToBottom")), pt, FLT(10), ("ref", w.T.option(port, Lit("x")))], handlers=w.handlers())


def tree(ck, work, k, name):
    f = ck.fn(PX + "printer::dump_ast")
    m = builder.World(ck).mk
    s = [("node", Lit("z"), None, ())]
    for i in range(k):
        s = [("node", Lit("n%d" % i), None, [(Lit("label"), Lit("x"))]), ("sub", s), ("sub", [])]
    work.call(f, [("ref", m.mk_graph(s))])


CASES = {"search": on_dag("is_reachable"), "verify": on_dag("verify"), "ranks": on_dag("recompute_node_ranks"), "lower": lower,
         "parse": on_text(lambda k: "digraph {" + "subgraph s { a -> b; {" * k + "c" + "} }" * k + "}"),
         "attributes": on_text(lambda k: "digraph { a [" + "x = y; z = w, " * k + "] }"),
         "chain": on_text(lambda k: "digraph { a" + " -> b:p -- c" * k + " [x=y]; }"),
         "lex": lex, "build": build, "record": record, "size": size, "draw": draw, "outline": outline, "tree": tree}
WHAT = {"search": "a search for a path through a chain of diamonds", "verify": "the check of a chain of diamonds", "ranks": "the ranks of a chain of diamonds", "lower": "lowering a chain of diamonds",
        "parse": "parsing nested scopes", "attributes": "parsing a list of attributes", "chain": "parsing a chain of edges", "lex": "reading long tokens and comments", "build": "building a graph from nested scopes",
        "record": "parsing nested record fields", "size": "the size of nested record fields", "draw": "drawing nested record fields", "outline": "the place of a port in nested record fields", "tree": "printing nested scopes"}
