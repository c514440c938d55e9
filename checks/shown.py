"""SHOWN: what the library prints for people: the place of a parse error, and the tree of a parsed graph."""
import itertools
import random
from common import *
from parser import Ast, PX

LX = PX + "lexer::"
LETTER = ((97, 122),)
BLANK = ((32, 32),)
NL = "\n"


def printed(st):
    """the characters and strings printed on this path, or None if something was printed that is not understood"""
    out = []
    o = st.mon.get("stdout")
    for x in (str_parts(o) if o is not None else ()):
        if x.k == "lit":
            out.extend(x.a[0])
        else:
            out.append(x)
    return out


def rows(parts):
    out = [[]]
    for x in parts:
        if x == NL:
            out.append([])
        else:
            out[-1].append(x)
    return out


def known(parts):
    return all(isinstance(x, str) or x.k == "ch" for x in parts)


# ------------------------------------------------------------------ the place of an error
def run_error(ck):
    rnd = random.Random(41)
    items = []
    for n in range(0, 6 if ck.thorough else 5):
        for shape in itertools.product((LETTER, NL), repeat=n):
            for k in range(1, n + 2):
                items.append(("at", shape, k))
    for _ in range(60 if ck.thorough else 25):
        shape = tuple(rnd.choice((LETTER, LETTER, LETTER, NL)) for _ in range(rnd.randrange(6, 30)))
        items.append(("at", shape, rnd.randrange(1, len(shape) + 2)))
    for t in TEXTS:
        items.append(("text",) + cut(t))
    parallel(ck, items, lambda ck, it: at_place(ck, it[1], it[2]) if it[0] == "at" else of_text(ck, *it[1:]))
    ck.extra["texts"] = len(items)


# malformed texts; the token that the grammar does not allow is between the two guillemets
TEXTS = ["«foo»", "digraph «->» {}", "digraph a b «»", "digraph {\n  a -> «;»\n  b\n}", "graph {\n  a [x=«]» b\n  c\n}\n", "digraph {\n a b «]» c\n d e\n}", "digraph {\n a = «=»\n}",
         "digraph { a -> b [label «x» = y]; }", "digraph {\n\n\n   node «a» [x=y]\n q\n}", "digraph {\n a : «:» b\n}", "digraph {\n a -> b -> «->» c -> d\n}\n\n\n", "graph «graph» { a }",
         "digraph {\n edge «=» a\n}\n", "digraph { a [x=y «{» b ] }", "digraph {\n {\n {\n a «,» b\n } } }\n", "graph {\n subgraph x «y» {\n z\n}\n}\n", "strict «a» {\n}\n",
         "digraph {\n a «?» b\n}", "digraph {\n a -> «\"foo\n b }»", "digraph {\n a -> b [x=y] «->» c\n}\n", "graph {\n a «-»", "digraph {\n // c\n /* d\n */ a = «]»\n}", "digraph {\n a [x=y;«;»]\n}", "digraph {\n a = «}»\n\n",
         "digraph {\n node [x=y «]»\n", "«{» a }", "digraph {\n subgraph «[» ] }", "digraph {\n a:b «=» c\n d }", "digraph {\n a [x=y, «=»]\n}", "digraph {\n a [«[» ]\n}"]


def cut(t):
    a, b = t.index("«"), t.index("»") - 1
    return t.replace("«", "").replace("»", ""), a, b


def letters(text):
    """the letters of the names of a text as arbitrary letters, everything else as it is"""
    plan, i = [], 0
    while i < len(text):
        j = i
        while j < len(text) and text[j].isalpha():
            j += 1
        w = text[i:j]
        plan += [LETTER] * (j - i) if len(w) == 1 else list(w)
        if j == i:
            plan.append(text[i])
            j += 1
        i = j
    return plan


def engine(ck):
    eng = Eng(ck.prog(), max_states=20000, max_time=15, widen_delay=1)
    eng.join_heads, eng.unroll, eng.max_rec = False, 5000, 40

    def on_panic(e, st, what, sp):
        ck.violation("panic:%s" % what, "showing the place of a parse error can panic (%s)" % what, ck.prog().line(sp), trace_of(ck.prog(), st))
    eng.on_panic = on_panic
    return eng


def source(eng, st, plan):
    syms = {i: mk("in", "x:%d" % i, "char") for i, c in enumerate(plan) if not isinstance(c, str)}
    src = mk_str([mk("ch", syms[i]) if i in syms else mk("lit", c) for i, c in enumerate(plan)])
    chars = [mk("ch", syms[i]) if i in syms else c for i, c in enumerate(plan)]
    for i, x in syms.items():
        eng.restrict(st, x, plan[i])
    return src, chars


def looks(plan):
    return repr("".join(c if isinstance(c, str) else "x" for c in plan))


def judge(ck, e, st, chars, lo, hi, where, fn):
    """the text up to the end of a line, then the line of the marker, which stands under one of the characters lo..hi"""
    out = printed(st)
    if not known(out) or e.stats["unknown"]:
        ck.undecided("output", "what is printed is not known%s: %s" % (where, show(st.mon.get("stdout"))[:120]))
        return
    site = ck.prog().line(st.trace[2]) if st.trace else fn.short
    got = rows(out)
    marks = [(i, r) for i, r in enumerate(got) if r and r[-1] == "^" and all(x == " " for x in r[:-1])]
    if len(marks) != 1:
        ck.violation("mark", "%d lines with a marker are printed for a parse error%s" % (len(marks), where), site, trace_of(ck.prog(), st))
        return
    at, row = marks[0]
    if any(r for r in got[at + 1:]):
        ck.violation("after", "text is printed behind the marker of a parse error%s" % where, site, trace_of(ck.prog(), st))
        return
    src = rows(chars)
    # lines of the text that may be the last one shown (empty lines may part it from the marker)
    ends = [n for n in range(1, min(at, len(src)) + 1) if got[:n] == src[:n] and not any(got[n:at])]
    if not ends:
        ck.violation("text", "the lines before the marker are not those of the text%s" % where, site, trace_of(ck.prog(), st))
        return
    # line and column of each character that may be meant
    places = set()
    for i in range(lo, hi + 1):
        if i < 0:
            places.add((0, 0))
            continue
        before = rows(chars[:i])
        places.add((len(before) - 1, len(before[-1])))
    col = len(row) - 1
    if any((n - 1, col) in places for n in ends):
        ck.ok("the marker stands under the error", "line %d, column %d%s" % (ends[-1], col + 1, where))
        return
    ck.violation("place", "the marker of a parse error stands under line %d, column %d of the text; reading stopped at line %d, column %d%s"
                 % (ends[-1], col + 1, max(places)[0] + 1, max(places)[1] + 1, where), site, trace_of(ck.prog(), st))


def at_place(ck, plan, k):
    """a lexer that has read k characters of a text (the first one when it is made)"""
    p = ck.prog()
    f_new, f_read, f_err = ck.fn(LX + "Lexer::from_string"), ck.fn(LX + "Lexer::read_char"), ck.fn(LX + "Lexer::print_error")
    eng = engine(ck)
    st = eng.new_state()
    src, chars = source(eng, st, plan)
    where = " after reading %d of %s" % (min(k, len(plan)), looks(plan))
    st.mon["n"] = Int(0)
    ends = [0]

    def on_return(e, st, v):
        n = st.mon["n"].a[0]
        st.mon["n"] = Int(n + 1)
        if n == 0:
            st.mon["lexer"] = e.heap(st, v)
        if n < k:
            # once more
            if n + 1 < k:
                e.push(st, f_read, [st.mon["lexer"]], None, None)
            else:
                st.mon["stdout"] = mk_str([])
                e.push(st, f_err, [st.mon["lexer"]], None, None)
            return [st]
        ends[0] += 1
        m = min(k, len(plan))
        if m:
            c = m - 1
            # the last character read is the one of look-ahead; the marker stands under the one before it on the line
            at = c if c == 0 or chars[c - 1] == NL else c - 1
            judge(ck, e, st, chars, at, at, where, f_err)
        return []
    eng.push(st, f_new, [kref(src)], None, None)
    try:
        eng.explore([st], on_return)
    except Budget as b:
        ck.undecided("budget", "%s%s" % (b, where))
    if not ends[0] and not ck.viol:
        ck.undecided("end", "no end%s" % where)


def of_text(ck, text, a, b):
    """a whole text that the grammar does not allow from the character a on"""
    p = ck.prog()
    f_new, f_proc, f_err = ck.fn(PX + "parser::DotParser::new"), ck.fn(PX + "parser::DotParser::process"), ck.fn(PX + "parser::DotParser::print_error")
    eng = engine(ck)
    st = eng.new_state()
    plan = letters(text)
    src, chars = source(eng, st, plan)
    where = " in %s" % looks(plan)
    st.mon["n"] = Int(0)
    ends = [0]

    def on_return(e, st, v):
        n = st.mon["n"].a[0]
        st.mon["n"] = Int(n + 1)
        if n == 0:
            st.mon["parser"] = e.heap(st, v)
            e.push(st, f_proc, [st.mon["parser"]], None, None)
            return [st]
        if n == 1:
            if v.k != "agg" or v.a[1] == 0:
                ck.undecided("verdict", "no error%s" % where)
                return []
            st.mon["stdout"] = mk_str([])
            e.push(st, f_err, [st.mon["parser"]], None, None)
            return [st]
        ends[0] += 1
        # under the token or right before it; at the end of the text, under one of its last characters
        judge(ck, e, st, chars, a - 1 if a < b else len(chars) - 2, b - 1 if a < b else len(chars) - 1, where, f_err)
        return []
    eng.push(st, f_new, [kref(src)], None, None)
    try:
        eng.explore([st], on_return)
    except Budget as x:
        ck.undecided("budget", "%s%s" % (x, where))
    if not ends[0] and not ck.viol:
        ck.undecided("end", "no end%s" % where)


# ------------------------------------------------------------------ the printed tree
def run_tree(ck):
    r = random.Random(17)
    items = [("g", n) for n in range(220 if not ck.thorough else 900)]
    parallel(ck, items, lambda ck, it: one_tree(ck, it[1]))
    ck.extra["trees"] = len(items)


class Tree:
    """an arbitrary tree and what has to be seen of it, in order"""

    def __init__(self, A, r):
        self.A, self.r, self.n, self.want = A, r, 0, []

    def name(self, what, depth):
        self.n += 1
        x = mk("in", "%s%d" % (what, self.n), "string")
        x.ty = self.A.p.ty_string
        self.want.append((what, x, depth))
        return x

    def node_id(self, depth):
        A = self.A
        n = self.name("node", depth)
        port = A.none() if self.r.random() < .6 else A.some(self.name("port", depth))
        return A.node_id(n, port)

    def attrs(self, depth):
        l = []
        p = self.A.p
        for _ in range(self.r.choice((0, 0, 1, 2, 3))):
            k = self.name("key", depth)
            v = self.name("value", depth)
            l.append((k, v))
        return l

    def stmt(self, depth, deep):
        A, r = self.A, self.r
        k = r.choice("neags" if deep else "nea")
        if k == "n":
            i = self.node_id(depth)
            return A.enum("Stmt", "Node", A.struct("NodeStmt", id=i, list=self.alist(depth)))
        if k == "e":
            f = self.node_id(depth)
            to = []
            for _ in range(r.choice((1, 1, 2, 3))):
                kind = r.choice(("Arrow", "Line"))
                self.want.append(("arrow", "->" if kind == "Arrow" else "--", depth))
                to.append(mk_tuple(self, [self.node_id(depth), A.enum("ArrowKind", kind)]))
            return A.enum("Stmt", "Edge", A.struct("EdgeStmt", **{"from": f, "to": mk("list", None, (), tuple(to)), "list": self.alist(depth)}))
        if k == "a":
            t = r.choice(("Graph", "Node", "Edge"))
            self.want.append(("target", t, depth))
            return A.enum("Stmt", "Attribute", A.struct("AttrStmt", target=A.enum("AttrStmtTarget", t), list=self.alist(depth)))
        return A.enum("Stmt", "SubGraph", self.graph(depth + 1, deep - 1))

    def alist(self, depth):
        return self.A.alist(mk("list", None, (), tuple(mk_tuple(self, [k, v]) for k, v in self.attrs(depth))))

    def graph(self, depth, deep):
        n = self.name("graph", depth)
        l = [self.stmt(depth, deep) for _ in range(self.r.choice((0, 1, 2, 3)))]
        return self.A.graph(n, mk("list", None, (), tuple(l)))


    def nest(self, n):
        """scopes within scopes"""
        names = [self.name("graph", i) for i in range(n + 1)]
        g = self.A.graph(names[n], mk("list", None, (), (self.stmt(n, 0),)))
        for i in range(n - 1, -1, -1):
            g = self.A.graph(names[i], mk("list", None, (), (self.A.enum("Stmt", "SubGraph", g), self.stmt(i, 0))))
        return g


def mk_tuple(tr, xs):
    return agg(None, 0, xs)


def one_tree(ck, seed):
    p = ck.prog()
    f = ck.fn(PX + "printer::dump_ast")
    eng = Eng(p, max_states=20000, max_time=15, widen_delay=1)
    eng.join_heads, eng.unroll, eng.max_rec = False, 5000, 40

    def on_panic(e, st, what, sp):
        ck.violation("panic:%s" % what, "printing a tree can panic (%s)" % what, p.line(sp), trace_of(p, st))
    eng.on_panic = on_panic
    t = Tree(Ast(p), random.Random(seed))
    g = t.graph(0, 3) if seed % 10 else t.nest(seed // 10 % 30)
    st = eng.new_state()
    st.mon["stdout"] = mk_str([])
    ends = [0]

    def on_return(e, st, v):
        ends[0] += 1
        if e.stats["unknown"]:
            ck.undecided("output", "opaque calls: %s" % e.stats["unknown"])
            return []
        tree_shown(ck, e, st, t.want, f, seed)
        return []
    eng.push(st, f, [kref(g)], None, None)
    try:
        eng.explore([st], on_return)
    except Budget as b:
        ck.undecided("budget", str(b))
    if not ends[0] and not ck.viol:
        ck.undecided("end", "no end of tree %d" % seed)


def tree_shown(ck, e, st, want, f, seed):
    site = ck.prog().line(st.trace[2]) if st.trace else f.short
    lines = rows(printed(st))
    got = []
    for l in lines:
        # the strings of the tree, and on lines without any of them the words that stand for arrows and targets
        words = "".join(x if isinstance(x, str) else "\0" for x in l)
        ind = len(words) - len(words.lstrip(" "))
        strs = [x.a[0] for x in l if not isinstance(x, str) and x.k == "S"]
        other = [x for x in l if not isinstance(x, str) and (x.k != "S" or x.a[0].k != "in")]
        if other:
            ck.undecided("output", "what is printed is not known: %s" % show(other[0])[:100])
            return
        if strs:
            got += [(x, ind) for x in strs]
        elif "->" in words or "--" in words:
            got.append(("->" if "->" in words else "--", ind))
        else:
            t = [w for w in ("Graph", "Node", "Edge") if w.lower() in words.lower()]
            if len(t) == 1:
                got.append((t[0], ind))
    need = [x for _, x, _ in want]
    have = [x for x, _ in got]
    if [id(x) if not isinstance(x, str) else x for x in have] != [id(x) if not isinstance(x, str) else x for x in need]:
        n = next((i for i, (a, b) in enumerate(zip(have, need)) if a is not b and a != b), min(len(have), len(need)))
        what = want[n][0] if n < len(need) else "end"
        ck.violation("shown:%s" % what, "the printed tree is not the tree: part %d of it is %s (%s), the text shows %s" % (n, show1(need, n), what, show1(have, n)), site, trace_of(ck.prog(), st))
        return
    # the graph line of an inner scope stands further to the right than the one of the scope around it
    stack = []
    for (kind, x, depth), (_, ind) in zip(want, got):
        if kind != "graph":
            continue
        del stack[depth:]
        if stack and ind <= stack[-1]:
            ck.violation("nest", "the line of an inner scope is not further to the right than the one of the scope around it", site, trace_of(ck.prog(), st))
            return
        stack.append(ind)
    ck.ok("the printed tree shows every part of the tree, in order", " ".join(k for k, _, _ in want)[:200])


def show1(l, n):
    return "nothing" if n >= len(l) else l[n] if isinstance(l[n], str) else show(l[n])


# ------------------------------------------------------------------ a printed record
def run_record(ck):
    from build import Types, vec
    T = Types(ck)
    rec = T.ty("shapes::RecordDef")
    fields = [v for v in T.variants(rec) if v["n"] == "Text"][0]["f"]
    (_, strty), (_, optty) = fields
    ck.fn("layout::gv::record::print_record")

    def make(r, depth, want):
        if depth == 0 or r.random() < .5:
            want.append(mk("in", "text%d" % len(want), "string"))
            want[-1].ty = strty
            t = want[-1]
            port = None
            if r.random() < .4:
                port = mk("in", "port%d" % len(want), "string")
                port.ty = strty
                want.append(port)
            return T.make(rec, [t, T.option(optty, port)], "Text")
        want.append("[")
        l = [make(r, depth - 1, want) for _ in range(r.choice((0, 1, 2, 3)))]
        want.append("]")
        return T.make(rec, [vec(l)], "Array")

    def one(ck, seed):
        r = random.Random(seed)
        want = []
        v = make(r, r.randrange(0, 5), want)
        p = ck.prog()
        eng = Eng(p, max_states=20000, max_time=15, widen_delay=1)
        eng.join_heads, eng.unroll, eng.max_rec = False, 5000, 40
        eng.on_panic = lambda e, st, what, sp: ck.violation("record:panic", "printing a record can panic (%s)" % what, p.line(sp), trace_of(p, st))
        st = eng.new_state()
        st.mon["stdout"] = mk_str([])

        def on_return(e, st, _):
            if e.stats["unknown"]:
                ck.undecided("record:output", "opaque calls: %s" % e.stats["unknown"])
                return []
            got = []
            for x in printed(st):
                if not isinstance(x, str) and (x.k != "S" or x.a[0].k != "in"):
                    ck.undecided("record:output", "what is printed is not known: %s" % show(x)[:100])
                    return []
                if x in ("[", "]") or not isinstance(x, str):
                    got.append(x if isinstance(x, str) else x.a[0])
            if len(got) != len(want) or any(a is not b and a != b for a, b in zip(got, want)):
                n = next((i for i, (a, b) in enumerate(zip(got, want)) if a is not b and a != b), min(len(got), len(want)))
                ck.violation("record:shown", "the printed record is not the record: part %d of it is %s, the text shows %s" % (n, show1(want, n), show1(got, n)), "gv/record.rs print_record", trace_of(p, st))
                return []
            ck.ok("the printed record shows every field, port and group, in order", "%d parts" % len(want))
            return []
        eng.push(st, ck.fn("layout::gv::record::print_record"), [kref(v), Int(r.randrange(3))], None, None)
        try:
            eng.explore([st], on_return)
        except Budget as b:
            ck.undecided("record:budget", str(b))
    parallel(ck, list(range(120)), one)
