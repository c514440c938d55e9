"""LEX: the token stream of the DOT lexer equals the reference transducer."""
import random
from common import *

LX = "layout::gv::parser::lexer::"
WSP = ((9, 10), (12, 13), (32, 32))
ALPHA = ((65, 90), (97, 122))
DIGIT = ((48, 57),)
KW = {"graph": "GraphKW", "node": "NodeKW", "edge": "EdgeKW", "digraph": "DigraphKW", "strict": "StrictKW", "subgraph": "SubgraphKW"}
PUNCT = {"=": "Equal", ";": "Semicolon", ":": "Colon", "[": "OpenBracket", "]": "CloseBracket", "{": "OpenBrace", "}": "CloseBrace", ",": "Comma"}


def one(c):
    return ((ord(c), ord(c)),)


def rest(*ivs):
    r = ()
    for x in ivs:
        r = r + x
    return iv_and(iv_not(tuple(sorted(r))), ((0, 0x10FFFF),))


def spec_q(mode, text=None, flag=0):
    return mk("q", mode, text if text is not None else Lit(""), flag)


def app_ch(t, c):
    return mk_str(list(str_parts(t)) + [mk("ch", c)])


NUL = ((0, 0),)

# mode -> list of (char set, action); action(q,c) -> ("go", q2, consume) | ("emit", tokname, text, consume)
def table(q):
    mode, text, flag = q.a
    if mode == "START":
        t = [(NUL, lambda c: ("emit", "EOF", None, False)), (WSP, lambda c: ("go", q, True)), (one("/"), lambda c: ("go", spec_q("SLASH"), True)),
             (one('"'), lambda c: ("go", spec_q("STR"), True)), (one("-"), lambda c: ("go", spec_q("DASH"), True)),
             (ALPHA, lambda c: ("go", spec_q("IDENT", app_ch(Lit(""), c)), True)), (DIGIT, lambda c: ("go", spec_q("NUM", app_ch(Lit(""), c)), True))]
        for p, n in PUNCT.items():
            t.append((one(p), (lambda n: lambda c: ("emit", n, None, True))(n)))
        t.append((rest(*[x for x, _ in t]), lambda c: ("emit", "Error", None, True)))
        return t
    if mode == "SLASH":
        t = [(one("*"), lambda c: ("go", spec_q("BLOCK"), True)), (one("/"), lambda c: ("go", spec_q("LINE"), True))]
        return t + [(rest(one("*"), one("/")), lambda c: ("go", spec_q("START"), False))]
    if mode == "BLOCK":
        return [(one("*"), lambda c: ("go", spec_q("BLOCKSTAR"), True)), (rest(one("*")), lambda c: ("go", q, True))]
    if mode == "BLOCKSTAR":
        return [(one("/"), lambda c: ("go", spec_q("START"), True)), (one("*"), lambda c: ("go", q, True)), (rest(one("*"), one("/")), lambda c: ("go", spec_q("BLOCK"), True))]
    if mode == "LINE":
        return [(one("\n"), lambda c: ("go", spec_q("START"), True)), (rest(one("\n")), lambda c: ("go", q, True))]
    if mode == "STR":
        return [(one('"'), lambda c: ("emit", "Identifier", text, True)), (one("\\"), lambda c: ("go", spec_q("ESC", text), True)), (NUL, lambda c: ("emit", "Error", None, False)),
                (rest(one('"'), one("\\"), NUL), lambda c: ("go", spec_q("STR", app_ch(text, c)), True))]
    if mode == "ESC":
        nl = one("l") + one("n")
        return [(nl, lambda c: ("go", spec_q("STR", app_ch(text, Int(10))), True)), (rest(nl), lambda c: ("go", spec_q("STR", app_ch(text, c)), True))]
    if mode == "DASH":
        return [(one(">"), lambda c: ("emit", "ArrowRight", None, True)), (one("-"), lambda c: ("emit", "ArrowLine", None, True)),
                (DIGIT, lambda c: ("go", spec_q("NUM", app_ch(Lit("-"), c)), True)), (rest(one("-"), one(">"), DIGIT), lambda c: ("emit", "Error", None, True))]
    if mode == "IDENT":
        idc = ((48, 57), (65, 90), (95, 95), (97, 122))
        return [(idc, lambda c: ("go", spec_q("IDENT", app_ch(text, c)), True)), (rest(idc), lambda c: ("emit", "word", text, False))]
    if mode == "NUM":
        more = lambda c: ("go", spec_q("NUM", app_ch(text, c), flag), True)
        dot = (lambda c: ("go", spec_q("NUM", app_ch(text, c), 1), True)) if not flag else (lambda c: ("emit", "Identifier", text, False))
        hi = ((128, 0x10FFFF),)
        return [(DIGIT, more), (one("."), dot), (hi, ("numeric", more, lambda c: ("emit", "Identifier", text, False))),
                (rest(DIGIT, one("."), hi), lambda c: ("emit", "Identifier", text, False))]
    raise Exception(mode)


def eof_action(q):
    mode, text, flag = q.a
    if mode in ("START", "SLASH", "BLOCK", "BLOCKSTAR", "LINE"):
        return ("emit", "EOF", None)
    if mode in ("STR", "ESC", "DASH"):
        return ("emit", "Error", None)
    if mode == "IDENT":
        return ("emit", "word", text)
    return ("emit", "Identifier", text)


class Lex:
    def __init__(self, ck, eng):
        self.ck, self.e = ck, eng
        self.src = mk("in", "src")
        self.chars = mk("chars", self.src)
        p = eng.p
        self.tokty = p.adt("lexer::Token")[0]
        self.classes = 0

    def start(self, st):
        st.mon["q"] = spec_q("START")
        st.mon["pos"] = Int(0)
        st.mon["pend"] = UNDEF
        st.mon["out"] = UNDEF

    def step(self, st, c):
        """feed one char term; returns states (pending char consumed or token emitted)"""
        e = self.e
        res = []
        work = [st]
        while work:
            s = work.pop()
            q = s.mon["q"]
            if s.mon["out"] is not UNDEF:
                res.append(s)
                continue
            opts = []
            tab = table(q)
            for iv, act in tab:
                s2 = s.copy()
                if e.restrict(s2, c, iv):
                    opts.append((s2, act))
            for s2, act in opts:
                if len(opts) > 1:
                    e.forked(s2)
                if isinstance(act, tuple):
                    a, b = e.split(s2, mk("app", "is_numeric?bool", c))
                    alts = [(x, f) for x, f in ((a, act[1]), (b, act[2])) if x is not None]
                else:
                    alts = [(s2, act)]
                for s3, f in alts:
                    self.classes += 1
                    r = f(c)
                    if r[0] == "go":
                        s3.mon["q"] = r[1]
                        if r[2]:
                            s3.mon["pend"] = UNDEF
                            res.append(s3)
                        else:
                            work.append(s3)
                    else:
                        s3.mon["out"] = mk("tok", r[1], r[2] if r[2] is not None else Lit(""))
                        if r[3]:
                            s3.mon["pend"] = UNDEF
                        s3.mon["q"] = spec_q("START")
                        res.append(s3)
        return res

    def on_head(self, e, st, hk):
        """consume a pending character whose class is already decided, so that the texts of code and reference
        are aligned where loops are generalised"""
        if st.mon["stage"] is Int(0):
            return
        c = st.mon["pend"]
        while c is not UNDEF and st.mon["out"] is UNDEF:
            hits = []
            for iv, act in table(st.mon["q"]):
                s2 = st.copy()
                if e.restrict(s2, c, iv):
                    hits.append(act)
            if len(hits) != 1:
                return
            act = hits[0]
            if isinstance(act, tuple):
                d = e.decide(st, mk("app", "is_numeric?bool", c))
                if d is None:
                    return
                act = act[1] if d else act[2]
            r = act(c)
            if r[0] != "go":
                return
            st.mon["q"] = r[1]
            if r[2]:
                c = st.mon["pend"] = UNDEF

    def on_access(self, e, st, base, i, sp):
        if base is not self.chars:
            b, u, it = list_parts(base)
            if b is not self.chars:
                return [st]
        d = e.decide(st, eq(i, st.mon["pos"]))
        if d is not True:
            if d is None or e.decide(st, lt(st.mon["pos"], i)) is not False:
                st.mon["lost"] = TRUE
            return [st]
        sts = [st]
        if st.mon["pend"] is not UNDEF:
            sts = self.step(st, st.mon["pend"])
        out = []
        for s in sts:
            if s.mon["pend"] is not UNDEF:
                # the reference already emitted a token: the code reads on
                s.mon["over"] = TRUE
                out.append(s)
                continue
            s.mon["pend"] = mk_elem(e, self.chars, i)
            s.mon["pos"] = addc(i, 1)
            out.append(s)
        return out

    def finish(self, st):
        """run the reference up to its next token; returns states with mon['out'] set"""
        e = self.e
        done, work = [], [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 200:
                s.mon["lost"] = TRUE
                done.append(s)
                continue
            if s.mon["out"] is not UNDEF:
                done.append(s)
                continue
            if s.mon["pend"] is not UNDEF:
                work.extend(self.step(s, s.mon["pend"]))
                continue
            a, b = e.split(s, lt(s.mon["pos"], list_len(self.chars)))
            if b is not None:
                r = eof_action(b.mon["q"])
                b.mon["out"] = mk("tok", r[1], r[2] if r[2] is not None else Lit(""))
                b.mon["q"] = spec_q("START")
                done.append(b)
            if a is not None:
                # the code returned without looking at this character
                a.mon["pend"] = mk_elem(e, self.chars, a.mon["pos"])
                a.mon["pos"] = addc(a.mon["pos"], 1)
                if s.mon.get("extra", Int(0)).a[0] > 3:
                    a.mon["lost"] = TRUE
                    done.append(a)
                    continue
                a.mon["extra"] = addc(s.mon.get("extra", Int(0)), 1)
                work.append(a)
        return done


def mk_elem(e, b, i):
    if b.k == "list":
        return b.a[2][i.a[0]]
    return e.base_get(b, i)


def run(ck):
    one_pass(ck, 2)
    if not ck.viol:
        run_texts(ck)
    if not ck.viol:
        one_pass(ck, 0)


# ------------------------------------------------------------------ texts of known shape
CLASS = {"A": ALPHA, "a": ((97, 122),), "9": DIGIT, "w": ((48, 57), (65, 90), (95, 95), (97, 122)), " ": WSP, "u": ((0xC0, 0x10FFFF),), "!": ((1, 8), (33, 33), (35, 44), (60, 60), (62, 64))}


def texts(count, seed):
    """texts as lists of characters and sets of characters"""
    def cl(k, n=1):
        return [CLASS[k]] * n
    out = []
    for kw in list(KW) + ["digraph1", "xgraph", "node_", "nod", "edges", "strict_", "sub"]:
        for w in (kw, kw.upper(), kw.capitalize(), kw[0] + kw[1:].upper(), kw[:-1] + kw[-1].upper()):
            out.append(list(w))
            out.append(list(w) + cl(" ") + list(w) + cl("9", 1))
    for n in (20, 64, 130, 300):
        out.append(cl("A") + cl("w", n))
        out.append(cl("9", n))
        out.append(cl("9", n) + ["."] + cl("9", n) + ["."] + cl("9"))
        out.append(['"'] + cl("w", n) + ['"'])
        out.append(['"'] + cl(" ", n // 10) + ["\\", "n"] * (n // 10) + ['"', "x"])
        out.append(list("/*") + cl("w", n) + list("*/") + cl("9", 2))
        out.append(list("//") + cl("!", n) + ["\n"] + cl("9", 2))
        out.append(cl(" ", n) + ["{"])
        out.append(["-"] + cl("9", n))
    atoms = ["->", "--", "-", "/", "*", "/*", "*/", "//", "\n", "\r\n", "\r", '"', "\\", '\\"', "\\n", "\\l", "\\\n", ".", "-5", "1.5", "_", "#", "\0", "{", "}", "[", "]", "=", ";", ",", ":", "graph", "node", "é", "٣", "<", ">", "0x1"]
    r = random.Random(seed)
    for _ in range(count):
        t = []
        for _ in range(r.randrange(1, 9)):
            if r.random() < .35:
                k = r.choice("AA99ww  u!")
                t += cl(k, 1 if k in "u!" else r.choice((1, 1, 2, 3)))
            else:
                t += list(r.choice(atoms))
        out.append(t)
    return out


def run_texts(ck):
    """whole texts whose characters are known, or known up to a set of characters"""
    items = texts(1500 if ck.thorough else 500, 5)
    parallel(ck, items, lambda ck, t: one_pass(ck, 0, t))
    ck.extra["texts"] = len(items)


def shown(plan):
    return "".join(c if isinstance(c, str) else "?" for c in plan)[:120].__repr__()


def one_pass(ck, unroll, plan=None):
    p = ck.prog()
    f_new = ck.fn(LX + "Lexer::from_string")
    f_next = ck.fn(LX + "Lexer::next_token")
    eng = Eng(p, max_states=400000, max_time=300 if ck.thorough else 15, widen_delay=3 if ck.thorough else 1)
    eng.join_heads = True
    eng.unroll = unroll
    lx = Lex(ck, eng)
    if plan is None:
        eng.on_head = lx.on_head
    else:
        eng.join_heads, eng.unroll, eng.max_time, eng.max_states = False, 5000, 15, 20000
        syms = {i: mk("in", "x:%d" % i, "char") for i, c in enumerate(plan) if not isinstance(c, str)}
        lx.src = mk_str([mk("ch", syms[i]) if i in syms else mk("lit", c) for i, c in enumerate(plan)])
        lx.chars = mk("list", None, (), tuple(syms[i] if i in syms else Int(ord(c)) for i, c in enumerate(plan)))
    eng.on_access.append(lx.on_access)
    where = "" if plan is None else " in %s" % shown(plan)
    vnames = [v["n"] for v in p.tys[lx.tokty]["v"]]

    def on_panic(e, st, what, sp):
        ck.violation("panic:%s" % what, "lexing can panic (%s)%s" % (what, where), p.line(sp), trace_of(p, st))
    eng.on_panic = on_panic

    def on_hang(e, st, what, sp):
        fn = st.frames[-1].fn.short
        ck.violation("hang:%s" % fn, "lexing never ends: %s in %s comes back to the same state without reading anything" % (what, fn), p.line(sp) if sp else (p.line(st.trace[2]) if st.trace else ""), trace_of(p, st))
    if unroll or plan is not None:
        eng.on_hang = on_hang
    emitted = {}

    def on_return(e, st, v):
        if st.mon["stage"] is Int(0):
            st.mon["lexer"] = e.heap(st, v)
            st.mon["stage"] = Int(1)
            e.push(st, f_next, [st.mon["lexer"]], None, None)
            return [st]
        out = []
        for s in lx.finish(st):
            tok = s.mon["out"]
            if s.mon.get("lost") is not None or tok is UNDEF:
                ck.undecided("lost", "reference lost step (mode %s): %s" % (s.mon["q"].a[0], show(v)[:100]))
                ck.dbg = s
                continue
            name, text = tok.a
            if v.k != "agg":
                ck.undecided("value", "token value is opaque: %s" % show(v)[:80])
                continue
            code = vnames[v.a[1]]
            site = p.line(s.trace[2]) if s.trace else ""
            if name == "word":
                # keyword or identifier
                if str_chars(text) is None and s.facts.get(mk("sf", text)) is None:
                    ck.undecided("word", "word text generalised and not compared by the lexer in a recognised way")
                    s.mon["out"] = mk("tok", "Identifier", text)
                    out.append(s)
                    continue
                for k, kn in KW.items():
                    a, b = e.split(s, e.streq(text, Lit(k)))
                    if a is not None:
                        s2 = a if b is None else a.copy()
                        if not compare(e, s2, v, code, kn, None, site):
                            pass
                        else:
                            out.append(s2)
                    s = b
                    if s is None:
                        break
                if s is not None and compare(e, s, v, code, "Identifier", text, site):
                    out.append(s)
                continue
            if compare(e, s, v, code, name, text if name == "Identifier" else None, site):
                out.append(s)
        nxt = []
        for s in out:
            if s.mon["out"].a[0] in ("EOF", "Error"):
                continue
            s.mon["out"] = UNDEF
            s.mon.pop("extra", None)
            s.trace = None
            for f in [f for f in s.facts if f.k not in ("lin", "sym", "len")]:
                del s.facts[f]
            if not e.loop_head(s, (-1, 0)):
                continue
            e.push(s, f_next, [s.mon["lexer"]], None, None)
            nxt.append(s)
        return nxt

    def compare(e, s, v, code, name, text, site):
        if len(ck.viol) > 12:
            raise Budget("enough")
        if code != name:
            ck.violation("tok:%s:%s" % (name, code), "reference token %s but the lexer returns %s%s" % (name, code, where), site, trace_of(p, s))
            return False
        if text is not None:
            r = same(e, s, v.a[2][0], text)
            if r is False:
                ck.violation("text:%s" % name, "identifier text differs from the reference: code %s, reference %s%s" % (show(v.a[2][0])[:120], show(text)[:120], where), site, trace_of(p, s))
                return False
            if r is None:
                ck.undecided("text", "identifier text not decided: code %s, reference %s" % (show(v.a[2][0])[:120], show(text)[:120]), site)
                return True
        emitted[name] = emitted.get(name, 0) + 1
        ck.ok("token %s equals the reference" % name)
        return True

    st = eng.new_state()
    lx.start(st)
    st.mon["stage"] = Int(0)
    if plan is not None:
        for i, x in syms.items():
            eng.restrict(st, x, plan[i])
    eng.push(st, f_new, [kref(lx.src)], None, None)
    try:
        eng.explore([st], on_return)
    except Budget as b:
        if plan is not None:
            ck.undecided("texts", "%s%s" % (b, where))
        elif not unroll:
            ck.undecided("budget", str(b))
    if plan is not None:
        if eng.stats.get("cut"):
            ck.undecided("texts", "not followed to the end%s" % where)
        elif not (set(emitted) & {"EOF", "Error"}) and not ck.viol:
            ck.undecided("texts", "no end%s" % where)
        return
    if unroll:
        ck.extra["lexer, unrolled"] = {"states": eng.stats["states"], "paths": eng.stats["paths"], "tokens": emitted}
        return
    ck.extra["lexer"] = {"states": eng.stats["states"], "steps": eng.stats["steps"], "paths": eng.stats["paths"], "unknown": eng.stats["unknown"], "tokens": emitted,
                         "functions": {k: v for k, v in eng.stats["inlined"].items() if k.startswith("layout::")}, "reference transitions": lx.classes}
    want = set(KW.values()) | set(PUNCT.values()) | {"Identifier", "ArrowRight", "ArrowLine", "EOF", "Error"}
    for w in sorted(want - set(emitted)):
        if not ck.viol:
            ck.undecided("floor:%s" % w, "no path of the lexer produced token %s" % w)
    if eng.stats["unknown"]:
        ck.notes.append("opaque calls: %s" % eng.stats["unknown"])
