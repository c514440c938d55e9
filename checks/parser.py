"""PARSE: DotParser::process over an arbitrary token stream equals a reference pushdown parser that also builds the AST."""
import random
from common import *

PX = "layout::gv::parser::"


def fr(kind, *a):
    return mk("fr", kind, *a)


class Ast:
    """builds the expected AST values from the type definitions"""

    def __init__(self, p):
        self.p = p

        def one(n):
            c = [t for t in p.adt("ast::" + n)]
            if len(c) != 1:
                raise Missing("type ast::%s" % n)
            return c[0]
        self.ty = {n: one(n) for n in ("Graph", "StmtList", "Stmt", "NodeStmt", "EdgeStmt", "AttrStmt", "AttrStmtTarget", "AttributeList", "NodeId", "ArrowKind")}
        nid = p.tys[self.ty["NodeId"]]["v"][0]["f"]
        self.optty = None
        for f in nid:
            if f[0] == "port" if isinstance(f, (list, tuple)) else f.get("n") == "port":
                self.optty = f[1] if isinstance(f, (list, tuple)) else f.get("t")

    def fields(self, n, var=0):
        return [f[0] if isinstance(f, (list, tuple)) else f["n"] for f in self.p.tys[self.ty[n]]["v"][var]["f"]]

    def struct(self, n, **kw):
        fs = self.fields(n)
        if set(fs) != set(kw):
            raise Missing("fields of ast::%s: %s" % (n, fs))
        return agg(self.ty[n], 0, [kw[f] for f in fs])

    def enum(self, n, v, *a):
        for i, x in enumerate(self.p.tys[self.ty[n]]["v"]):
            if x["n"] == v:
                return agg(self.ty[n], i, a)
        raise Missing("variant %s of ast::%s" % (v, n))

    def some(self, v):
        return agg(self.optty, 1, [v])

    def none(self):
        return agg(self.optty, 0, [])

    def node_id(self, name, port):
        return self.struct("NodeId", name=name, port=port)

    def alist(self, l):
        return self.struct("AttributeList", list=l)

    def graph(self, name, l):
        return self.struct("Graph", name=name, list=self.struct("StmtList", list=l))


PUSH = "push"


class Ref:
    """reference pushdown parser; one token at a time"""

    def __init__(self, ck, eng):
        self.ck, self.e = ck, eng
        p = eng.p
        self.A = Ast(p)
        self.tokty = p.adt("lexer::Token")[0]
        self.v = {v["n"]: i for i, v in enumerate(p.tys[self.tokty]["v"])}
        for n in ("EOF", "Identifier", "Colon", "Comma", "ArrowLine", "ArrowRight", "OpenBracket", "CloseBracket", "OpenBrace", "CloseBrace", "Semicolon", "Equal", "GraphKW", "NodeKW", "EdgeKW", "DigraphKW", "StrictKW", "SubgraphKW", "Error"):
            if n not in self.v:
                raise Missing("Token::%s" % n)
        self.steps = 0
        self.kinds = {}

    def start(self, st):
        st.mon["stk"] = mk("stk", fr("TOP0"))
        st.mon["pend"] = UNDEF
        st.mon["res"] = UNDEF

    def ev(self, st, tok, names):
        """restrict the token to a set of variants"""
        ivs = iv_norm([self.v[n] for n in names])
        return self.e.restrict(st, self.e.disc(st, tok, self.tokty), ivs)

    def trans(self, top, tok):
        """[(variants | None for 'any other', action)]; action -> (new_frames, consume) replacing the top frame,
        ('pop', value-frame-kind ...), or 'reject'"""
        A = self.A
        k, a = top.a[0], top.a[1:]
        idt = mk("fld", tok, self.v["Identifier"], 0)
        idt.ty = self.e.p.ty_string
        R = "reject"
        if k == "TOP0":
            return [(("StrictKW",), ([fr("TOP1")], True)), (("GraphKW", "DigraphKW", "SubgraphKW"), ([fr("TOP2")], True)), (None, R)]
        if k == "TOP1":
            return [(("GraphKW", "DigraphKW", "SubgraphKW"), ([fr("TOP2")], True)), (None, R)]
        if k == "TOP2":
            return [(("Identifier",), ([fr("TOP3", idt)], True)), (None, ([fr("TOP3", Lit(""))], False))]
        if k == "TOP3":
            return [(("OpenBrace",), ([fr("END", a[0]), fr("L0", EMPTY)], True)), (None, R)]
        if k == "END":
            return [(("EOF",), "accept"), (None, R)]
        if k in ("L0", "L1"):
            lst = a[0]
            r = [(("Semicolon",), ([fr("L1", lst)], True))] if k == "L0" else []
            me = fr("LS", lst)
            r += [(("CloseBrace",), ("done", lst, True)), (("Identifier",), ([me, fr("S1", idt)], True)), (("SubgraphKW",), ([me, fr("SG0")], True)),
                  (("GraphKW",), ([me, fr("AT", "Graph")], True)), (("NodeKW",), ([me, fr("AT", "Node")], True)), (("EdgeKW",), ([me, fr("AT", "Edge")], True)),
                  (("OpenBrace",), ([me, fr("SG2", Lit("anonymous")), fr("L0", EMPTY)], True)), (None, R)]
            return r
        if k == "S1":
            return [(("Colon",), ([fr("S1C", a[0])], True)), (None, ([fr("S2", a[0], A.none())], False))]
        if k == "S1C":
            return [(("Identifier",), ([fr("S2", a[0], A.some(idt))], True)), (None, R)]
        if k == "S2":
            nid = A.node_id(a[0], a[1])
            node = lambda l: A.enum("Stmt", "Node", A.struct("NodeStmt", id=nid, list=A.alist(l)))
            port = a[1].a[1] == 1
            return [(("ArrowLine",), ([fr("E", nid, EMPTY, "Line")], True)), (("ArrowRight",), ([fr("E", nid, EMPTY, "Arrow")], True)),
                    (("Equal",), R if port else ([fr("EQ", a[0])], True)), (("Identifier", "CloseBrace"), ("done", node(EMPTY), False)),
                    (("Semicolon",), ("done", node(EMPTY), True)), (("OpenBracket",), ([fr("NL", nid), fr("A0", EMPTY)], True)), (None, R)]
        if k == "EQ":
            l = mk("list", None, (), (tup(a[0], idt),))
            return [(("Identifier",), ("done", A.enum("Stmt", "Attribute", A.struct("AttrStmt", target=A.enum("AttrStmtTarget", "Graph"), list=A.alist(l))), True)), (None, R)]
        if k == "E":
            return [(("Identifier",), ([fr("E1", a[0], a[1], a[2], idt)], True)), (None, R)]
        if k == "E1":
            to = self.e.list_push(a[1], tup(A.node_id(a[3], A.none()), A.enum("ArrowKind", a[2])))
            return [(("Colon",), ([fr("E1C", *a)], True)), (None, ([fr("E2", a[0], to)], False))]
        if k == "E1C":
            to = self.e.list_push(a[1], tup(A.node_id(a[3], A.some(idt)), A.enum("ArrowKind", a[2])))
            return [(("Identifier",), ([fr("E2", a[0], to)], True)), (None, R)]
        if k == "E2":
            return [(("ArrowLine",), ([fr("E", a[0], a[1], "Line")], True)), (("ArrowRight",), ([fr("E", a[0], a[1], "Arrow")], True)),
                    (("OpenBracket",), ([fr("EL", a[0], a[1]), fr("A0", EMPTY)], True)), (None, ("done", self.edge(a[0], a[1], EMPTY), False))]
        if k == "A0":
            return [(("CloseBracket",), ("done", a[0], True)), (("Identifier",), ([fr("A1", a[0], idt)], True)), (None, R)]
        if k == "A1":
            return [(("Equal",), ([fr("A2", a[0], a[1])], True)), (None, R)]
        if k == "A2":
            return [(("Identifier",), ([fr("A3", self.e.list_push(a[0], tup(a[1], idt)))], True)), (None, R)]
        if k == "A3":
            return [(("Semicolon",), ([fr("A4", a[0])], True)), (("Comma",), ([fr("A0", a[0])], True)), (None, ([fr("A0", a[0])], False))]
        if k == "A4":
            return [(("Comma",), ([fr("A0", a[0])], True)), (None, ([fr("A0", a[0])], False))]
        if k == "AT":
            return [(("OpenBracket",), ([fr("TL", a[0]), fr("A0", EMPTY)], True)), (None, R)]
        if k == "SG0":
            return [(("Identifier",), ([fr("SG1", idt)], True)), (None, ([fr("SG1", Lit(""))], False))]
        if k == "SG1":
            return [(("OpenBrace",), ([fr("SG2", a[0]), fr("L0", EMPTY)], True)), (None, R)]
        raise Exception(k)

    def edge(self, frm, to, l):
        return self.A.enum("Stmt", "Edge", self.A.struct("EdgeStmt", **{"from": frm, "to": to, "list": self.A.alist(l)}))

    def deliver(self, stk, v):
        """a nonterminal finished with value v: hand it to the frame below"""
        A = self.A
        while True:
            top = stk[-1]
            k, a = top.a[0], top.a[1:]
            if k == "LS":
                stk[-1] = fr("L0", self.e.list_push(a[0], v))
                return
            stk.pop()
            if k == "END":
                stk.append(fr("END", A.graph(a[0], v)))
                return
            if k == "SG2":
                v = A.enum("Stmt", "SubGraph", A.graph(a[0], v))
            elif k == "NL":
                v = A.enum("Stmt", "Node", A.struct("NodeStmt", id=a[0], list=A.alist(v)))
            elif k == "EL":
                v = self.edge(a[0], a[1], v)
            elif k == "TL":
                v = A.enum("Stmt", "Attribute", A.struct("AttrStmt", target=A.enum("AttrStmtTarget", a[0]), list=A.alist(v)))
            else:
                raise Exception(k)

    def options(self, st, tok):
        top = st.mon["stk"].a[-1]
        tr = self.trans(top, tok)
        named = set(n for ns, _ in tr if ns for n in ns)
        return [(ns if ns is not None else tuple(set(self.v) - named), act) for ns, act in tr]

    def apply(self, st, act):
        """returns True if the token was consumed (or the run ended)"""
        self.steps += 1
        stk = list(st.mon["stk"].a)
        k = stk[-1].a[0]
        self.kinds[k] = self.kinds.get(k, 0) + 1
        if act == "reject":
            st.mon["res"] = mk("tok", "reject", Lit(""))
            return True
        if act == "accept":
            st.mon["res"] = mk("tok", "accept", stk[-1].a[1])
            return True
        stk.pop()
        if act[0] == "done":
            self.deliver(stk, act[1])
            c = act[2]
        else:
            stk.extend(act[0])
            c = act[1]
        st.mon["stk"] = mk("stk", *stk)
        if c:
            st.mon["pend"] = UNDEF
        return c

    def drain(self, st):
        """process the pending token; returns states"""
        out, work = [], [st]
        while work:
            s = work.pop()
            tok = s.mon["pend"]
            if tok is UNDEF or s.mon["res"] is not UNDEF:
                out.append(s)
                continue
            opts = []
            for ns, act in self.options(s, tok):
                s2 = s.copy()
                if self.ev(s2, tok, ns):
                    opts.append((s2, act))
            for s2, act in opts:
                if len(opts) > 1:
                    self.e.forked(s2)
                self.apply(s2, act)
                if s2.mon["pend"] is UNDEF or s2.mon["res"] is not UNDEF:
                    out.append(s2)
                else:
                    work.append(s2)
        return out

    def on_head(self, e, st, hk):
        while st.mon["pend"] is not UNDEF and st.mon["res"] is UNDEF:
            tok = st.mon["pend"]
            hit = []
            for ns, act in self.options(st, tok):
                s2 = st.copy()
                if self.ev(s2, tok, ns):
                    hit.append(act)
            if len(hit) != 1 or hit[0] in ("reject", "accept") or hit[0][-1]:
                return
            self.apply(st, hit[0])

    def next_token(self, e, st, args, argty, ctx):
        out = []
        for s in self.drain(st):
            if s.mon["res"] is not UNDEF:
                s.mon["over"] = addc(s.mon.get("over", Int(0)), 1)
                if s.mon["over"].a[0] > 3:
                    continue
                out.append((s, self.fresh_tok(s)))
                continue
            t = self.fresh_tok(s)
            s.mon["pend"] = t
            out.append((s, t))
        return out

    plan = None             # the kinds of the tokens to come, or None: any

    def fresh_tok(self, s):
        t = self.e.fresh(s, "t", self.tokty)
        if self.plan is not None:
            k = s.mon.get("k", Int(0))
            s.mon["k"] = addc(k, 1)
            n = self.plan[k.a[0]] if k.a[0] < len(self.plan) else "EOF"
            self.e.restrict(s, self.e.disc(s, t, self.tokty), iv_norm([self.v[n]]))
        return t


def run(ck):
    one_pass(ck, 2, 2)
    if not ck.viol:
        run_sentences(ck)
    if not ck.viol:
        one_pass(ck, 0, 3 if ck.thorough else 2)


# ------------------------------------------------------------------ sentences
WORD = {"EOF": "<end>", "Identifier": "id", "Colon": ":", "Comma": ",", "ArrowLine": "--", "ArrowRight": "->", "OpenBracket": "[", "CloseBracket": "]", "OpenBrace": "{",
        "CloseBrace": "}", "Semicolon": ";", "Equal": "=", "GraphKW": "graph", "NodeKW": "node", "EdgeKW": "edge", "DigraphKW": "digraph", "StrictKW": "strict",
        "SubgraphKW": "subgraph", "Error": "<error>"}


def sentence(r, size):
    """the kinds of the tokens of a random sentence of the grammar"""
    out = []
    I = "Identifier"

    def attrs():
        out.append("OpenBracket")
        for _ in range(r.choice((0, 0, 1, 1, 2, 3, 5))):
            out.extend((I, "Equal", I))
            out.extend(r.choice(((), (), ("Comma",), ("Semicolon",), ("Semicolon", "Comma"))))
        out.append("CloseBracket")

    def node():
        out.append(I)
        if r.random() < .3:
            out.extend(("Colon", I))

    def stmts(depth, n):
        for _ in range(n):
            k = r.choice("nneeekagst" if depth < 9 else "nneeeka")
            if k == "n":
                node()
                if r.random() < .4:
                    attrs()
            elif k == "e":
                node()
                for _ in range(r.choice((1, 1, 2, 3, 6))):
                    out.append(r.choice(("ArrowRight", "ArrowLine")))
                    node()
                if r.random() < .5:
                    attrs()
            elif k == "k":
                out.extend((I, "Equal", I))
            elif k == "a":
                out.append(r.choice(("GraphKW", "NodeKW", "EdgeKW")))
                attrs()
            else:
                if k == "s":
                    out.append("SubgraphKW")
                    if r.random() < .5:
                        out.append(I)
                out.append("OpenBrace")
                stmts(depth + 1, r.choice((0, 1, 1, 2, 3)))
                out.append("CloseBrace")
            if r.random() < .4:
                out.append("Semicolon")
    if r.random() < .2:
        out.append("StrictKW")
    out.append(r.choice(("GraphKW", "DigraphKW", "SubgraphKW")))
    if r.random() < .5:
        out.append(I)
    out.append("OpenBrace")
    stmts(0, size)
    out.append("CloseBrace")
    return out


def sentences(count, seed, size):
    """sentences of the grammar, every third with an error"""
    r = random.Random(seed)
    kinds = sorted(WORD)
    for i in range(count):
        s = sentence(r, r.randrange(0, size))
        if i % 3 == 2:
            at = r.randrange(len(s))
            m = r.randrange(3)
            if m == 0:
                del s[at]
            elif m == 1:
                s[at] = r.choice(kinds)
            else:
                s.insert(at, r.choice(kinds))
        yield tuple(s)


def run_sentences(ck):
    """whole sentences whose kinds of tokens are known and whose texts are not"""
    # long chains, deep nests and long lists, then random ones
    I = "Identifier"
    fixed = [("GraphKW", "OpenBrace") + (I,) + ("ArrowRight", I) * 40 + ("CloseBrace",), ("GraphKW", "OpenBrace", I, "OpenBracket") + (I, "Equal", I) * 30 + ("CloseBracket", "CloseBrace"),
             ("GraphKW", "OpenBrace") + ("OpenBrace",) * 25 + ("CloseBrace",) * 26, ("GraphKW", "OpenBrace") + ("SubgraphKW", I, "OpenBrace") * 25 + ("CloseBrace",) * 26,
             ("DigraphKW", I, "OpenBrace") + (I,) * 60 + ("CloseBrace",), ("DigraphKW", I, "OpenBrace") + (I, "Equal", I, "Semicolon") * 30 + ("CloseBrace",),
             ("DigraphKW", "OpenBrace") + ("NodeKW", "OpenBracket", I, "Equal", I, "CloseBracket") * 20 + ("CloseBrace",)]
    plans = fixed + list(sentences(1200 if ck.thorough else 300, 77, 9))
    parallel(ck, plans, one_sentence)
    ck.extra["sentences"] = len(plans)


def one_sentence(ck, plan):
    one_pass(ck, 0, 2, plan)


def one_pass(ck, unroll, depth, plan=None):
    p = ck.prog()
    f_new = ck.fn(PX + "parser::DotParser::new")
    f_proc = ck.fn(PX + "parser::DotParser::process")
    f_next = ck.fn(PX + "lexer::Lexer::next_token")
    eng = Eng(p, max_states=400000, max_time=600 if ck.thorough else 120, max_rec=depth)
    eng.join_heads = True
    eng.unroll = unroll
    if unroll:
        eng.max_time = 60 if ck.thorough else 12
        eng.shuffle = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    rf = Ref(ck, eng)
    rf.plan = plan
    if plan is not None:
        eng.join_heads, eng.unroll, eng.max_rec, eng.max_time = False, 5000, 60, 20
    eng.handlers[f_next.n] = rf.next_token
    if plan is None:
        eng.on_head = lambda e, st, hk: rf.on_head(e, st, hk) if st.mon["stage"] is not Int(0) else None
    where = "" if plan is None else " in `%s`" % " ".join(WORD[k] for k in plan)[:600]

    def on_panic(e, st, what, sp):
        ck.violation("panic:%s" % what, "parsing can panic (%s)%s" % (what, where), p.line(sp), trace_of(p, st))
    eng.on_panic = on_panic

    def on_hang(e, st, what, sp):
        fn = st.frames[-1].fn.short
        ck.violation("hang:%s" % fn, "parsing never ends: %s in %s comes back to the same state without reading anything" % (what, fn), p.line(sp) if sp else (p.line(st.trace[2]) if st.trace else ""), trace_of(p, st))
    if unroll or plan is not None:
        eng.on_hang = on_hang
    seen = {"accept": 0, "reject": 0}

    def on_return(e, st, v):
        if st.mon["stage"] is Int(0):
            st.mon["parser"] = e.heap(st, v)
            st.mon["stage"] = Int(1)
            e.push(st, f_proc, [st.mon["parser"]], None, None)
            return [st]
        if len(ck.viol) > 12:
            raise Budget("enough")
        site = p.line(st.trace[2]) if st.trace else ""
        for s in rf.drain(st):
            if v.k != "agg":
                ck.undecided("value", "result is opaque: %s" % show(v)[:80])
                continue
            code = "accept" if v.a[1] == 0 else "reject"
            res = s.mon["res"]
            top = s.mon["stk"].a[-1].a[0]
            if res is UNDEF:
                ck.violation("early:%s:%s" % (code, top), "the parser returns %s although the reference grammar has not decided (state %s)%s" % ("Ok" if code == "accept" else "Err", top, where), site, trace_of(p, s))
                continue
            if res.a[0] != code:
                ck.violation("verdict:%s:%s:%s" % (res.a[0], code, top), "reference grammar %ss the token stream, the parser returns %s (state %s)%s" % (res.a[0], "Ok" if code == "accept" else "Err", top, where), site, trace_of(p, s))
                continue
            seen[code] += 1
            if code == "reject":
                ck.ok("rejects exactly where the grammar does (state %s)" % top)
                continue
            r = same(e, s, v.a[2][0], res.a[1])
            if r is False:
                ck.violation("ast", "AST differs from the token stream%s: code %s reference %s" % (where, show(v.a[2][0])[:400], show(res.a[1])[:400]), site, trace_of(p, s))
            elif r is None:
                ck.undecided("ast", "AST equality not decided: code %s reference %s" % (show(v.a[2][0])[:300], show(res.a[1])[:300]), site)
            else:
                ck.ok("accepted AST equals the reference AST")
        return []

    st = eng.new_state()
    rf.start(st)
    st.mon["stage"] = Int(0)
    eng.push(st, f_new, [kref(Lit("x"))], None, None)
    try:
        eng.explore([st], on_return)
    except Budget as b:
        if plan is not None:
            ck.undecided("sentence", "%s%s" % (b, where))
        elif not unroll:
            ck.undecided("budget", str(b))
    if plan is not None:
        if eng.stats.get("cut") or eng.stats["recursion_cut"]:
            ck.undecided("sentence", "not followed to the end%s" % where)
        elif not sum(seen.values()) and not ck.viol:
            ck.undecided("sentence", "no result%s" % where)
        return
    if not unroll and not ck.viol and eng.diverged:
        # states in which a text or list of the program has just parted from the one of the grammar: follow each to the end
        rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        picked = eng.diverged[:150]
        eng.gen_lists = True
        eng.join_heads, eng.unroll, eng.shuffle, eng.max_time = False, 2, rnd, 200 if ck.thorough else 30
        for s in picked:
            s.heads = {}
        try:
            eng.explore(list(picked), on_return)
        except Budget:
            pass
    ck.extra["parser" + (", unrolled" if unroll else "")] = {
        "states": eng.stats["states"], "steps": eng.stats["steps"], "paths": eng.stats["paths"], "opaque calls": eng.stats["unknown"],
        "recursion cut (induction)": eng.stats["recursion_cut"], "results": seen, "reference transitions": rf.steps, "grammar states": rf.kinds,
        "functions": [k for k in eng.stats["inlined"] if k.startswith("layout::")]}
    if not unroll and not ck.viol:
        for k in ("accept", "reject"):
            if not seen[k]:
                ck.undecided("floor:" + k, "no path of the parser ended in %s" % k)
