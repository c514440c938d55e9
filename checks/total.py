"""P01: every text is answered: lexing, parsing and showing the error neither fail nor go on for ever."""
from common import *
import lexer
import parser

LX, PX = lexer.LX, parser.PX


class View:
    """the verdicts about panics and endless loops out of another analysis"""

    def __init__(self, ck, what):
        self.ck, self.what = ck, what
        self.viol, self.extra, self.notes = {}, {}, []

    def __getattr__(self, a):
        return getattr(self.ck, a)

    def ok(self, name, what=None):
        self.ck.ok("%s ends without failing on this path" % self.what)

    def violation(self, key, msg, site, trace=None):
        self.viol.setdefault(key, msg)
        if key.startswith(("panic:", "hang:")):
            self.ck.violation("%s:%s" % (self.what, key), msg, site, trace)

    def undecided(self, key, msg, site=""):
        if key in ("budget", "lost", "value") or key.startswith("floor"):
            self.ck.undecided("%s:%s" % (self.what, key), msg, site)


def run_total(ck):
    v = View(ck, "lexing")
    lexer.run(v)
    v2 = View(ck, "parsing")
    parser.run(v2)
    ck.extra.update(v.extra)
    ck.extra.update(v2.extra)
    shown(ck)


def shown(ck):
    """print_error on a lexer that stands anywhere in any text"""
    p = ck.prog()
    f = ck.fn(LX + "Lexer::print_error")
    f2 = ck.fn(PX + "parser::DotParser::print_error")
    ends = 0
    for unroll in (5, 0):
        eng = Eng(p, max_states=60000, max_time=20 if not ck.thorough else 120, widen_delay=1)
        eng.unroll = unroll
        eng.join_heads = not unroll
        where = "unrolled" if unroll else "fixpoint"

        def on_panic(e, st, what, sp):
            ck.violation("error:panic:%s" % what, "showing a parse error can panic (%s)" % what, p.line(sp), trace_of(p, st))

        def on_hang(e, st, what, sp):
            ck.violation("error:hang", "showing a parse error never ends: %s in %s comes back to the same state" % (what, st.frames[-1].fn.short), p.line(sp) if sp else "", trace_of(p, st))
        eng.on_panic = on_panic
        if unroll:
            eng.on_hang = on_hang
        cnt = [0]

        def on_return(e, st, v):
            cnt[0] += 1
            ck.ok("showing the error ends without failing on this path (%s)" % where)
            return []
        st = eng.new_state()
        src = mk("in", "src")
        lx = mk("in", "parser")
        eng.push(st, f2, [kref(lx)], None, None)
        try:
            eng.explore([st], on_return)
        except Budget as b:
            if not unroll:
                ck.undecided("error:budget", str(b))
        ends += cnt[0]
        ck.extra["print_error, " + where] = {"states": eng.stats["states"], "paths": cnt[0], "opaque calls": eng.stats["unknown"]}
        if ck.viol:
            return
    if not ends:
        ck.undecided("error:floor", "no path of print_error returned")
