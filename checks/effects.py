"""F*, E*, X*: effects on the outside world, failure of writes, wiring of the command line"""
import json
import os
import re
import subprocess
import tempfile
from terms import *
from core import *
from sym import *
from common import *
from common import REPO
from build import *
import intrin

EFFECTS = [
    ("files", re.compile(r"^<?std::(fs|path::Path::(exists|is_file|is_dir|read_dir|metadata|canonicalize))\b")),
    ("sockets", re.compile(r"^<?std::(net|os::unix::net)\b")),
    ("processes", re.compile(r"^<?std::(process)\b")),
    ("environment", re.compile(r"^<?std::env\b")),
    ("clock", re.compile(r"^<?std::time::(Instant|SystemTime)\b")),
    ("threads", re.compile(r"^<?std::thread\b")),
    ("standard streams", re.compile(r"^<?std::io::(_print|_eprint|stdout|stderr|stdin|stdio)\b|^std::io::stdio")),
    ("thread-local state", re.compile(r"^<?(std|core)::thread::(local::)?LocalKey\b")),
    ("random numbers", re.compile(r"RandomState|^<?std::(random|hash::random)\b|DefaultHasher")),
    ("foreign code", re.compile(r"^<?std::(ffi::C|os::raw|arch)\b|^libc::")),
]
CELLS = re.compile(r"\b(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|Atomic\w*|LocalKey|Condvar)\b")
ONCE = re.compile(r"\b(LazyLock|OnceLock|Once)\b")


def mentions(x, out):
    """type ids of the constants in a MIR body"""
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, list):
        if len(x) >= 2 and x[0] == "k" and isinstance(x[1], int):
            out.add(x[1])
        for y in x:
            mentions(y, out)


class Graph:
    """call graph: every function a body calls or mentions, closures included"""

    def __init__(self, p):
        self.p = p
        self.local = [f for f in p.fns if f.local and f.raw is not None]
        names = {}
        for f in self.local:
            names.setdefault(f.n, f)
        self.out = {}
        self.ext = {}
        for f in self.local:
            tys = set()
            mentions(f.raw["bbs"], tys)
            fs, ex = set(), []
            for b in f.raw["bbs"]:
                t = b["t"]
                if t[0] == "call" and isinstance(t[1], list) and t[1][0] == "k":
                    td = p.tys[t[1][1]]
                    if td["k"] == "fndef":
                        ex.append((td, t[-1]))
            seen = {id(td) for td, _ in ex}
            for i in tys:
                td = p.tys[i]
                if td["k"] == "fndef" and id(td) not in seen:
                    ex.append((td, None))
            for td, sp in ex:
                g = p.fns[td["fn"]] if td["fn"] is not None else None
                if g is not None and g.local:
                    fs.add(g.n)
            self.out[f.n] = fs
            self.ext[f.n] = [(td, sp) for td, sp in ex if td["fn"] is None or not p.fns[td["fn"]].local]
        for f in self.local:        # a closure runs for the function it is written in
            m = re.match(r"(.*)::\{closure#\d+\}", f.n)
            if m:
                base = m.group(1)
                if base in self.out:
                    self.out[base].add(f.n)
                else:
                    for n in self.out:
                        if n.startswith(base + "::<"):
                            self.out[n].add(f.n)
        self.callers = {}
        for n, fs in self.out.items():
            for g in fs:
                self.callers.setdefault(g, set()).add(n)

    def only_from(self, ok):
        """functions that are `ok`, or that only such functions call"""
        good = {n for n in self.out if ok(n)}
        while True:
            more = {n for n in self.out if n not in good and self.callers.get(n) and all(c in good or c == n for c in self.callers[n]) and any(c in good for c in self.callers[n])}
            if not more:
                return good
            good |= more

    def path_to(self, n):
        """a chain of callers from a function nobody calls"""
        ch, cur = [n], n
        while self.callers.get(cur):
            nx = sorted(c for c in self.callers[cur] if c not in ch)
            if not nx:
                break
            cur = nx[0]
            ch.append(cur)
        return ch[::-1]


def short(n):
    return n.rsplit("::", 1)[-1]


PRINTS = re.compile(r"::(dump\w*|print\w*)$|::printer::")


def effect_of(p, td):
    g = p.fns[td["fn"]] if td["fn"] is not None else None
    for n in [td["t"]] + ([g.n, g.t] if g is not None else []):
        for what, rx in EFFECTS:
            if rx.search(n):
                return what, n
    return None


def run_effects(ck):
    """F01"""
    for which in ("lib", "bin"):
        p = ck.prog(which)
        g = Graph(p)
        saves = g.only_from(lambda n: short(n) == "save_to_file")
        prints = g.only_from(lambda n: PRINTS.search(n) is not None)
        mains = g.only_from(lambda n: n.endswith("::main"))
        if which == "lib":
            for n in ("layout::gv::parser::parser::DotParser::process", "layout::core::utils::save_to_file"):
                ck.fn(n)
        for f in g.local:
            bad = False
            for td, sp in g.ext[f.n]:
                ef = effect_of(p, td)
                if ef is None:
                    continue
                what, n = ef
                if what == "files" and (f.n in saves or which == "bin" and f.n in mains):
                    continue
                if what == "standard streams" and (f.n in prints or which == "bin" and f.n in mains):
                    continue
                if what in ("processes", "environment") and which == "bin" and f.n in mains:
                    continue
                if what == "random numbers" and re.search(r"Hash(Map|Set)", td["d"]) and not re.search(r"hash_one|build_hasher|DefaultHasher", td["t"]):
                    continue                # the parameter of a hash map
                bad = True
                ck.violation("effects:%s:%s" % (what, f.n), "%s uses %s (%s), reached by %s" % (f.n, what, n, " -> ".join(g.path_to(f.n))), p.line(sp) if sp else p.line(f.span))
            if not bad:
                ck.ok("effects:function", f.n)
        for s in p.statics:
            if not str(s.get("crate", "")).startswith("layout"):
                continue
            d = p.tys[s["ty"]]["d"] if isinstance(s.get("ty"), int) else ""
            if not s.get("mut") and re.match(r"&?(std::sync::)?(\w+::)*LazyLock<", d):
                ck.ok("effects:static", s["n"])         # its value depends on nothing that runs
                continue
            if not s.get("mut") and ONCE.search(d):
                ck.undecided("effects:static %s" % s["n"], "set once, by the first that runs")
                continue
            if s.get("mut") or CELLS.search(d) or cells_in(p, s.get("ty"), set()):
                ck.violation("effects:static:%s" % s["n"], "%s is global state that can change (%s)" % (s["n"], d), s["n"])
            else:
                ck.ok("effects:static", s["n"])
        ck.extra["functions of the %s" % which] = len(g.local)


def cells_in(p, ty, seen):
    if not isinstance(ty, int) or ty in seen:
        return False
    seen.add(ty)
    t = p.tys[ty]
    if t["k"] == "adt":
        if CELLS.search(t["n"].split("::")[-1]):
            return True
        if t["n"].startswith(("std::", "alloc::", "core::")):
            return any(cells_in(p, a, seen) for a in t.get("a", []) if isinstance(a, int))
        return any(cells_in(p, f[1], seen) for v in t.get("v", []) for f in v.get("f", []))
    return any(cells_in(p, t[k], seen) for k in ("e",) if isinstance(t.get(k), int)) or any(cells_in(p, x, seen) for x in t.get("a", []) if isinstance(x, int))


def run_safe(ck):
    """M01: the crates compile with unsafe code forbidden (a compile-fail witness)"""
    for pkg, target in (("layout-rs", ["--lib"]), ("layout-cli", ["--bins"])):
        with tempfile.TemporaryDirectory() as d:
            env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS")}
            env.update(CARGO_TARGET_DIR=d, CARGO_INCREMENTAL="0")
            r = subprocess.run(["cargo", "+nightly", "rustc", "--profile", "check", "--offline", "-q", "--message-format=json", "-p", pkg] + target + ["--", "-F", "unsafe_code"],
                               cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        other = []
        found = False
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            m = m.get("message") if m.get("reason") == "compiler-message" else None
            if not m or m.get("level") != "error":
                continue
            code = (m.get("code") or {}).get("code")
            sp = [s for s in m.get("spans", []) if s.get("is_primary")]
            at = "%s:%d" % (sp[0]["file_name"], sp[0]["line_start"]) if sp else pkg
            if code == "unsafe_code" or code == "E0453" and "unsafe_code" in m["message"]:
                found = True
                ck.violation("safe:%s" % at, "%s: %s" % (at, m["message"]), at)
            else:
                other.append(m["message"])
        if found:
            continue
        if r.returncode:
            ck.undecided("safe:build", "the crate does not build with unsafe code forbidden: %s %s" % (other[:2], r.stderr[-300:]))
        else:
            ck.ok("safe:crate", pkg)


# ------------------------------------------------------------------ writes that fail
def ev(st, *x):
    l = st.mon.get("ev")
    st.mon["ev"] = tup(*((l.a[2] if l is not None else ()) + (tup(*[Lit(y) if isinstance(y, str) else y for y in x]),)))


def events(st):
    l = st.mon.get("ev")
    return [(x.a[2][0].a[0] if x.a[2][0].k == "lit" else str_const(x.a[2][0]),) + tuple(x.a[2][1:]) for x in (l.a[2] if l is not None else ())]


def res_fork(e, st, ctx, op, good, path=None):
    """[(state, Ok(good)), (state, Err(..))]"""
    t = intrin.rty(e, ctx)
    s2 = st.copy()
    e.forked(st)
    e.forked(s2)
    x = mk("app", "error", Lit(op))
    ev(s2, "failed", op)
    return [(st, intrin.enum(e, t, "Ok", good)), (s2, intrin.enum(e, t, "Err", x))]


def file_handlers():
    hd = {}
    L, LL = intrin.L, intrin.LL

    def deep(e, st, v):
        while v.k == "ref":
            v = e.loadref(st, v)
        return v

    def create(e, st, a, ty, ctx):
        f = mk("app", "file", deep(e, st, a[0]))
        ev(st, "open", deep(e, st, a[0]))
        return res_fork(e, st, ctx, "create", f)
    hd["std::fs::File::create"] = create

    def write(e, st, a, ty, ctx):
        ev(st, "open", deep(e, st, a[0]))
        ev(st, "write", mk("app", "file", deep(e, st, a[0])), deep(e, st, a[1]))
        return res_fork(e, st, ctx, "write", UNIT)
    hd["std::fs::write"] = write

    def is_file(v):
        return v.k == "app" and v.a[0] in ("file", "buffered")

    def write_all(e, st, a, ty, ctx):
        f = deep(e, st, a[0])
        if not is_file(f):
            return NotImplemented
        ev(st, "write", f, deep(e, st, a[1]))
        return res_fork(e, st, ctx, "write", UNIT)
    hd["std::io::Write::write_all"] = write_all

    def write_fmt(e, st, a, ty, ctx):
        f = deep(e, st, a[0])
        if not is_file(f):
            return NotImplemented
        ev(st, "write", f, intrin.fmt_term(a[1]))
        return res_fork(e, st, ctx, "write", UNIT)
    hd["std::io::Write::write_fmt"] = write_fmt

    def part(e, st, a, ty, ctx):
        f = deep(e, st, a[0])
        if not is_file(f):
            return NotImplemented
        ev(st, "part", f, deep(e, st, a[1]))
        return res_fork(e, st, ctx, "write", inp("written"))
    hd["std::io::Write::write"] = part

    def flush(e, st, a, ty, ctx):
        f = deep(e, st, a[0])
        if not is_file(f):
            return NotImplemented
        ev(st, "flush", f)
        return res_fork(e, st, ctx, "flush", UNIT)
    for n in ("std::io::Write::flush", "std::fs::File::sync_all", "std::fs::File::sync_data", "std::io::BufWriter::<W>::flush_buf"):
        hd[n] = flush

    def buffered(e, st, a, ty, ctx):
        f = a[-1]
        return mk("app", "buffered", f) if is_file(f) else NotImplemented
    for n in ("std::io::BufWriter::<W>::new", "std::io::BufWriter::<W>::with_capacity", "std::io::LineWriter::<W>::new"):
        hd[n] = buffered

    def opts(e, st, a, ty, ctx):
        return mk("app", "opts")
    hd["std::fs::OpenOptions::new"] = opts
    hd["std::fs::File::options"] = opts

    def flag(nm):
        def h(e, st, a, ty, ctx):
            o = deep(e, st, a[0])
            if o.k != "app" or o.a[0] != "opts" or a[1].k != "int":
                return NotImplemented
            fl = [x for x in o.a[1:] if x is not Lit(nm)] + ([Lit(nm)] if a[1].a[0] else [])
            n = mk("app", "opts", *fl)
            if a[0].k == "ref":
                e.storeref(st, a[0], n, ctx[4])
                return a[0]
            return n
        return h
    for nm in ("read", "write", "create", "truncate", "append", "create_new"):
        hd["std::fs::OpenOptions::" + nm] = flag(nm)

    def open_(e, st, a, ty, ctx):
        o = deep(e, st, a[0])
        if o.k != "app" or o.a[0] != "opts":
            return NotImplemented
        pth = deep(e, st, a[1])
        fl = {x.a[0] if x.k == "lit" else str_const(x) for x in o.a[1:]}
        ev(st, "open", pth)
        if not fl & {"truncate", "create_new"}:
            ev(st, "kept", pth)
        if not fl & {"create", "create_new"}:
            ev(st, "existing", pth)
        return res_fork(e, st, ctx, "open", mk("app", "file", pth))
    hd["std::fs::OpenOptions::open"] = open_
    return hd


def other_effect(p, more=()):
    """a call of another function with an effect leaves the path undecided"""
    names = set(file_handlers()) | set(more)

    def h(e, st, fn, tp, args, sp):
        for n in (tp, fn.t if fn is not None else None, fn.n if fn is not None else None):
            if n is None or n in names:
                return None
        for n in (tp, fn.t if fn is not None else ""):
            if n and any(what in ("files", "processes") and rx.search(n) for what, rx in EFFECTS):
                st.mon["other"] = Lit(n)
        return None
    return h


def run_save(ck):
    """E01"""
    f = ck.fn("layout::core::utils::save_to_file")
    r = Runner(ck, f, max_time=20, handlers=file_handlers())
    r.e.on_call.append(other_effect(ck.prog()))
    path, text = inp("filename", f.raw["locals"][1][0]), inp("content", f.raw["locals"][2][0])
    p = ck.prog()

    def strip_ref(i):
        t = p.tys[i]
        return t["e"] if t["k"] == "ref" else i
    path.ty = text.ty = strip_ref(f.raw["locals"][1][0])
    r.go([r.e.heap(r.st, path), r.e.heap(r.st, text)])
    site = p.line(f.span)
    if r.cut:
        ck.undecided("save:cut", "not all paths of save_to_file followed")
    for st, what, where in r.panics:
        if st.mon.get("other") is None and st.mon.get("opaque") is None:
            ck.violation("save:panic", "save_to_file panics when an operation fails: %s at %s" % (what, where), site)
        else:
            ck.undecided("save:panic", what)
    good = 0
    for q in r.paths:
        E = events(q.st)
        if q.st.mon.get("other") is not None:
            ck.undecided("save:effect", "%s is not modelled" % show(q.st.mon["other"]))
            continue
        if q.ret.k != "agg":
            ck.undecided("save:result", "result %s" % show(q.ret)[:100])
            continue
        ok = p.tys[q.ret.a[0]]["v"][q.ret.a[1]]["n"] == "Ok"
        failed = [x[1] for x in E if x[0] == "failed"]
        say = lambda name, cond, msg: ck.ok("save:" + name, msg) if cond else ck.violation("save:" + name, "save_to_file: " + msg, site, trace_of(p, q.st))
        tr = ", ".join(show(x) for x in failed)
        if failed and ok:
            say("reported", False, "reports success although the %s failed" % tr)
            continue
        if any(x[0] == "part" for x in E) and not (ok and len([x for x in E if x[0] in ("write", "part")]) == 1):
            ck.undecided("save:whole", "pieces of unknown length are written")
            continue
        if not failed and not ok:
            say("success", False, "reports an error although every operation succeeded")
            continue
        ck.ok("save:outcome", "%s: %s" % ("fails: %s" % tr if failed else "succeeds", [x[0] for x in E]))
        if not ok:
            continue
        good += 1
        opens = [x for x in E if x[0] == "open"]
        writes = [x for x in E if x[0] in ("write", "part")]
        say("one file", len(opens) == 1 and opens[0][1] is path, "the file opened is the one named (%s)" % ", ".join(show(x[1]) for x in opens))
        if any(x[0] == "kept" for x in E):
            say("truncate", False, "the old content of a longer file is left behind the new one")
        if any(x[0] == "existing" for x in E):
            say("create", False, "a file that does not exist is not created")
        parts = [x for x in writes if x[0] == "part"]
        if parts:
            w = q.decide(eq(inp("written"), Int(0)))
            n = q.st.mon.get("fcmp")
            free_ = not any(mentions_in(c, "written") for c in facts_of(q))
            if len(parts) == 1 and len(writes) == 1 and free_ and w is None:
                say("whole", False, "a partial write counts as success")
            else:
                ck.undecided("save:whole", "pieces of unknown length are written")
            continue
        data = []
        for x in writes:
            data.append(x[2])
        want = text
        got = data[0] if len(data) == 1 else None
        if got is None and data:
            got = mk_str([y for d in data for y in str_parts(d)])
        if got is None:
            if q.decide(eq(q.e.strlen(text), Int(0))) is not True and any(x[0] == "part" for z in r.paths for x in events(z.st)):
                ck.undecided("save:content", "a loop that writes pieces is not entered")
            else:
                say("content", q.decide(eq(q.e.strlen(text), Int(0))) is True, "nothing is written")
        elif got is want or unbytes(got) is want or str_parts(unbytes(got)) == str_parts(want):
            ck.ok("save:content", show(got)[:80])
        else:
            c = unbytes(got)
            if free(c) and c.k in ("str", "lit", "in", "substr", "slice") or lits(c):
                say("content", False, "what is written is %s, not the content" % show(c)[:120])
            elif free(c) and c.k == "app" and len(c.a) == 2 and c.a[1] is text and changes(str(c.a[0])):
                say("content", False, "what is written is %s, which differs for some content" % show(c)[:120])
            else:
                ck.undecided("save:content", "written: %s" % show(c)[:120])
        for x in writes:
            if x[1].a[0] == "buffered":
                later = E[E.index(x):]
                say("flushed", any(y[0] == "flush" and y[1] is x[1] for y in later), "the buffer is flushed, and its errors seen, before success is reported")
    if not good:
        ck.undecided("save:paths", "no path reports success")


CHANGES = re.compile(r"(^|::)(trim\w*|to_(ascii_)?(lower|upper)case|escape_\w+|strip_\w+|replacen?|lines)$")


def changes(fn):
    """a function of the standard library that is not the identity"""
    return CHANGES.search(fn) is not None


def facts_of(q):
    out = []
    for k in ("fcmp", "facts"):
        v = q.st.mon.get(k)
        if v is not None and v.k == "op1":
            out += list(v.a)
    for a in ("facts", "conds", "lo", "hi", "rng", "neq"):
        v = getattr(q.st, a, None)
        if v:
            out += list(v)
    t = q.st.trace
    while t is not None:
        if t[3]:
            out.append(t[3][0])
        t = t[0]
    return [x for x in out if isinstance(x, T)]


def mentions_in(t, name):
    return t.k == "in" and t.a[0] == name or any(mentions_in(x, name) for x in children(t))


def unbytes(t):
    while t.k == "app" and isinstance(t.a[0], str) and t.a[0].endswith(("as_bytes", "into_bytes", "to_bytes", "::as_slice", "::to_vec")) or t.k in ("bytes", "utf8"):
        t = t.a[-1] if isinstance(t.a[-1], T) else t.a[0]
    return t


def lits(t):
    try:
        return any(x.k == "lit" and x.a[0] for x in str_parts(t))
    except Exception:
        return False


# ------------------------------------------------------------------ the command line
OPTIONS = {     # long form: (short form, takes a value)
    "debug": ("d", False), "no-layout": (None, False), "no-optz": (None, False), "ast": ("a", False), "output": ("o", True)}


class CLI:
    def __init__(self, ck):
        self.ck = ck
        self.p = ck.prog("bin")
        self.main = ck.fn("layout::main", "bin")
        self.args = {}

    def hd(self):
        d = {}
        C = "layout::clap::"
        str_ = self.p.ty_string
        deep = lambda e, st, v: deep(e, st, e.loadref(st, v)) if v.k == "ref" else v

        def new(e, st, a, ty, ctx):
            return mk("app", "arg", deep(e, st, a[0]), tup())
        d[C + "Arg::new"] = new

        def setter(nm):
            def h(e, st, a, ty, ctx):
                x = a[0]
                if x.k != "app" or x.a[0] != "arg":
                    return NotImplemented
                return mk("app", "arg", x.a[1], tup(*(x.a[2].a[2] + (tup(Lit(nm), *[deep(e, st, y) for y in a[1:]]),))))
            return h
        for nm in ("short", "long", "help", "action", "value_name", "num_args", "required", "index", "default_value", "long_help", "short_alias", "alias", "visible_alias",
                   "global", "hide", "display_order", "conflicts_with", "requires", "overrides_with", "exclusive", "last", "value_parser", "env", "id", "help_heading"):
            d[C + "Arg::" + nm] = setter(nm)

        def arg(e, st, a, ty, ctx):
            x = a[1]
            if x.k == "app" and x.a[0] == "arg":
                key = str_const(x.a[1])
                l = st.mon.get("args")
                st.mon["args"] = tup(*((l.a[2] if l is not None else ()) + (x,)))
            return a[0]
        d[C + "Command::arg"] = arg

        def more(e, st, a, ty, ctx):
            for x in intrin.known_items(deep(e, st, a[1])) if deep(e, st, a[1]).k == "list" else (a[1].a[2] if a[1].k == "agg" else ()):
                arg(e, st, [a[0], x], ty, ctx)
            return a[0]
        d[C + "Command::args"] = more

        def known(st, k):
            """(what the program's documentation calls the argument, its settings)"""
            l = st.mon.get("args")
            for x in l.a[2] if l is not None else ():
                if str_const(x.a[1]) == k:
                    g = {str_const(s.a[2][0]): s.a[2][1:] for s in x.a[2].a[2]}
                    c = str_const(g["long"][0]) if "long" in g else None if "short" in g else "INPUT"
                    return c, g
            return None, {}

        def flag(e, st, a, ty, ctx):
            k = str_const(deep(e, st, a[1]))
            return inp("flag:%s" % (known(st, k)[0] or k))
        d[C + "ArgMatches::get_flag"] = flag

        def one(e, st, a, ty, ctx):
            k = str_const(deep(e, st, a[1]))
            t = intrin.rty(e, ctx)
            c, g = known(st, k)
            k = c or k
            v = inp("value:%s" % k, str_)
            if k == "INPUT":
                return intrin.enum(e, t, "Some", e.heap(st, v))
            s2 = st.copy()
            e.forked(st)
            e.forked(s2)
            ev(st, "given", k)
            if "default_value" in g:
                return [(st, intrin.enum(e, t, "Some", e.heap(st, v))), (s2, intrin.enum(e, t, "Some", e.heap(s2, g["default_value"][0])))]
            return [(st, intrin.enum(e, t, "Some", e.heap(st, v))), (s2, intrin.enum(e, t, "None"))]
        d[C + "ArgMatches::get_one"] = one

        def read(e, st, a, ty, ctx):
            ev(st, "read", deep(e, st, a[0]))
            return res_fork(e, st, ctx, "read", inp("contents", str_))
        d["std::fs::read_to_string"] = read

        def rec(nm, res=None):
            def h(e, st, a, ty, ctx):
                ev(st, nm, *[deep(e, st, x) for x in a])
                return UNIT if res is None else res(e, st, a, ctx)
            return h

        def process(e, st, a, ty, ctx):
            ev(st, "parse", deep(e, st, a[0]))
            return res_fork(e, st, ctx, "parse", mk("app", "tree", deep(e, st, a[0])))
        for pre in ("layout::gv::parser::", "layout::gv::", "layout::gv::parser::parser::"):
            d[pre + "DotParser::new"] = lambda e, st, a, ty, ctx: mk("app", "parser", deep(e, st, a[0]))
            d[pre + "DotParser::process"] = process
            d[pre + "DotParser::print_error"] = rec("print_error")
        d["layout::gv::dump_ast"] = rec("dump_ast")
        d["layout::gv::GraphBuilder::new"] = lambda e, st, a, ty, ctx: mk("app", "builder", UNIT)

        def visit(e, st, a, ty, ctx):
            b = deep(e, st, a[0])
            if a[0].k != "ref":
                return NotImplemented
            e.storeref(st, a[0], mk("app", "builder", tup(b.a[1], deep(e, st, a[1]))), ctx[4])
            return UNIT
        d["layout::gv::GraphBuilder::visit_graph"] = visit
        d["layout::gv::GraphBuilder::get"] = lambda e, st, a, ty, ctx: mk("app", "vg", deep(e, st, a[0]))
        d["layout::backends::svg::SVGWriter::new"] = lambda e, st, a, ty, ctx: mk("app", "svg", UNIT)

        def do_it(e, st, a, ty, ctx):
            if len(a) != 5 or a[4].k != "ref":
                return NotImplemented
            g, w = deep(e, st, a[0]), deep(e, st, a[4])
            ev(st, "layout", g, a[1], a[2], a[3])
            e.storeref(st, a[4], mk("app", "svg", tup(w.a[1], g, a[1], a[2], a[3])), ctx[4])
            return UNIT
        d["layout::topo::layout::VisualGraph::do_it"] = do_it
        d["layout::backends::svg::SVGWriter::finalize"] = lambda e, st, a, ty, ctx: mk("app", "text", deep(e, st, a[0]))

        def save(e, st, a, ty, ctx):
            ev(st, "save", deep(e, st, a[0]), deep(e, st, a[1]))
            return res_fork(e, st, ctx, "save", UNIT)
        d["layout::core::utils::save_to_file"] = save

        def log(e, st, a, ty, ctx):
            lv = [x for x in a if x.k == "agg" and x.a[0] >= 0 and str(self.p.tys[x.a[0]].get("n", "")).endswith("::Level")]
            ev(st, "log", self.p.tys[lv[0].a[0]]["v"][lv[0].a[1]]["n"] if lv else "?")
            return UNIT
        for t in self.p.tys:            # setting up the logger
            if t["k"] == "fndef" and re.search(r"\bclap::(\w+::)*Command::", t["t"]) and t["t"] not in d:
                d[t["t"]] = lambda e, st, a, ty, ctx: a[0] if a and a[0].k == "app" and a[0].a[0] == "clap" else mk("app", "clap")
            if t["k"] == "fndef" and "env_logger" in t["t"]:
                d[t["t"]] = lambda e, st, a, ty, ctx, n=t["t"]: UNIT if n.endswith("::init") else mk("app", "logger")
        for f in self.p.fns:
            if f.t.endswith("__private_api::log"):
                d[f.n] = log
            if re.search(r"Level as std::cmp::PartialOrd<.*LevelFilter>>::(le|partial_cmp)$", f.n) and f.n.endswith("le"):
                d[f.n] = lambda e, st, a, ty, ctx: Bool(True)
        return d


def run_cli(ck):
    """X01"""
    w = CLI(ck)
    p = w.p
    r = Runner(ck, w.main, max_time=60, which="bin", handlers=w.hd())
    r.e.on_call.append(other_effect(p, w.hd()))
    r.go([])
    site = p.line(w.main.span)
    if r.cut:
        ck.undecided("cli:cut", "not all paths of main followed")
    say = lambda q, name, cond, msg: ck.ok("cli:" + name, msg) if cond else (
        ck.undecided("cli:" + name, msg) if cond is None or q is not None and (q.st.mon.get("opaque") is not None or q.st.mon.get("other") is not None) else ck.violation("cli:" + name, msg, site, trace_of(p, q.st) if q is not None else []))
    for st, what, where in r.panics:
        if not any(x[0] == "failed" and show(x[1]).strip('"') == "read" for x in events(st)):
            q = Path(r.e, st, None)
            say(q, "panic", False, "the command line tool panics: %s at %s (after %s)" % (what, where, [x[0] for x in events(st)]))
    tree = mk("app", "tree", mk("app", "parser", inp("contents", p.ty_string)))
    checked = False
    for q in r.paths + [Path(r.e, s, None) for s, _, _ in r.panics]:
        E = events(q.st)
        names = [x[0] for x in E]
        failed = [str_const(x[1]) if str_const(x[1]) is not None else x[1].a[0] for x in E if x[0] == "failed"]
        l = q.st.mon.get("args")
        if l is not None and not checked:
            checked = True
            cli_args(ck, p, l.a[2], say)
        for x in E:
            if x[0] == "read":
                say(q, "input", x[1] is inp("value:INPUT", p.ty_string), "the file read is the INPUT argument (%s)" % show(x[1])[:60])
            if x[0] == "parse":
                say(q, "text", x[1] is mk("app", "parser", inp("contents", p.ty_string)), "what is parsed is the text of the input file (%s)" % show(x[1])[:80])
        say(q, "one save", names.count("save") <= 1, "%d files are written" % names.count("save"))
        bad = [x for x in ("read", "parse") if x in failed]
        if bad:
            say(q, "no output on error", "save" not in names and "layout" not in names, "a graph is drawn or written although the %s failed" % bad[0])
            if bad[0] == "parse":
                i = names.index("failed")
                say(q, "error shown", "print_error" in names[i:] or ("log", ) == () , "the place of the syntax error is printed")
                say(q, "error logged", any(x[0] == "log" and lev(x) == "Error" for x in E[i:]), "the syntax error is logged as an error")
            continue
        if "parse" not in names:
            if q.ret is not None:
                say(q, "parsed", None, "a path that does not parse the input")
            continue
        a = flag_of(q, "ast")
        dumps = [x for x in E if x[0] == "dump_ast"]
        if a is not None:
            say(q, "ast", (len(dumps) == 1 and dumps[0][1] is tree) if a else not dumps, "the syntax tree is dumped %d times, with --ast %s" % (len(dumps), a))
        lay = [x for x in E if x[0] == "layout"]
        sv = [x for x in E if x[0] == "save"]
        if q.ret is None:
            continue
        say(q, "drawn", len(lay) == 1 and len(sv) == 1, "the graph is laid out %d times and saved %d times" % (len(lay), len(sv)))
        if len(lay) != 1 or len(sv) != 1:
            continue
        say(q, "graph", lay[0][1] is mk("app", "vg", mk("app", "builder", tup(UNIT, tree))), "the graph drawn is the one of the input (%s)" % show(lay[0][1])[:100])
        for k, (nm, opt) in enumerate((("debug mode", "debug"), ("disabled optimisation", "no-optz"), ("disabled layout", "no-layout"))):
            v, f = lay[0][2 + k], flag_of(q, opt)
            want = inp("flag:%s" % opt)
            okv = v is want or (f is not None and v.k == "int" and bool(v.a[0]) == f)
            say(q, "option " + opt, okv, "%s is %s, the option is %s" % (nm, show(v), opt))
        text = mk("app", "text", mk("app", "svg", tup(UNIT, *lay[0][1:5])))
        say(q, "content", sv[0][2] is text, "the file gets the finished drawing (%s)" % show(sv[0][2])[:160])
        given = any(x[0] == "given" and str_const(x[1]) == "output" for x in E)
        if given:
            say(q, "output", sv[0][1] is inp("value:output", p.ty_string), "the file written is the one given with --output (%s)" % show(sv[0][1])[:80])
        else:
            c = str_const(sv[0][1])
            say(q, "default output", c == "/tmp/out.svg" if c is not None else None, "the default output is /tmp/out.svg (%s)" % c)
        i = names.index("save")
        errs = [x for x in E[i:] if x[0] == "log" and lev(x) == "Error"]
        say(q, "save reported", bool(errs) == ("save" in failed), "a failed save is logged as an error, and a good one is not (%s, %d errors)" % (failed, len(errs)))
        if "save" in failed:
            say(q, "no claim", not any(x[0] == "log" and lev(x) == "Info" for x in E[names.index("failed"):]), "the tool claims success after a failed save")
    if not r.paths:
        ck.undecided("cli:paths", "no path of main returns")


def lev(x):
    return x[1].a[0] if x[1].k == "lit" else str_const(x[1])


def flag_of(q, name):
    return q.decide(inp("flag:%s" % name))


def cli_args(ck, p, args, say):
    def val(t):
        if t.k == "int":
            return t.a[0]
        c = str_const(t)
        if c is not None:
            return c
        if t.k == "agg" and t.a[0] >= 0 and p.tys[t.a[0]].get("v"):
            return p.tys[t.a[0]]["v"][t.a[1]]["n"]
        return show(t)
    got = {}
    for x in args:
        g = {val(s.a[2][0]): [val(y) for y in s.a[2][1:]] for s in x.a[2].a[2]}
        got[g["long"][0] if "long" in g else str_const(x.a[1]) if "short" in g else "INPUT"] = g
    if not got:
        return
    for k, (sh, takes) in OPTIONS.items():
        g = got.get(k)
        say(None, "defined " + k, g is not None, "there is an option --%s" % k)
        if g is None:
            continue
        s = g.get("short", [None])[0]
        say(None, "short " + k, (chr(s) if isinstance(s, int) else s) == sh, "the short form of --%s is %s" % (k, sh))
        a = g.get("action", [None])[0]
        say(None, "action " + k, (a == "SetTrue") if not takes else a in (None, "Set"), "--%s %s" % (k, "takes a value" if takes else "is a switch that is off unless given"))
        say(None, "optional " + k, g.get("required", [0])[0] in (0, None), "--%s may be left out" % k)
    g = got.get("INPUT")
    say(None, "defined INPUT", g is not None and "long" not in g and "short" not in g, "INPUT is a positional argument")
    if g is not None:
        say(None, "required INPUT", bool(g.get("required", [0])[0]), "INPUT must be given")


def run_flags(ck):
    """X01: VisualGraph::do_it honours the three switches"""
    from graph import GWorld
    w = GWorld(ck)
    names = ck.prog().by_name
    groups = {
        "rank": [n for n in names if n.startswith("layout::topo::optimizer::RankOptimizer::") and n.endswith("::optimize")],
        "cross": [n for n in names if n.startswith("layout::topo::optimizer::EdgeCrossOptimizer::") and n.endswith("::optimize")],
        "align": [n for n in names if n.startswith("layout::topo::placer::bk::") and n.endswith("::do_it")],
        "fix": [n for n in names if n.startswith("layout::topo::placer::edge_fixer::") and n.endswith("::do_it")],
    }
    for k, v in groups.items():
        if not v:
            raise Missing("the pass %s" % k)
    base = w.handlers

    def handlers(noop=None, capture=True):
        d = base((), capture)
        for k, ns in groups.items():
            for n in ns:
                def h(e, st, a, ty, ctx, k=k):
                    ev(st, k)
                    return UNIT
                d[n] = h
        return d
    w.handlers = handlers
    site = ck.prog().line(w.f_do.span)
    for debug in (False, True):
        for opt in (True, False):
            for nolayout in (False, True):
                for orient in ("TopToBottom", "LeftToRight"):
                    ps = w.run(4, ((0, 1), (1, 2), (0, 2), (1, 3)), orient, opt, [Lit("")] * 4, dims=(debug, nolayout), elements=[boxed(w, i, orient) for i in range(4)])
                    what = "debug %s, optimisation disabled %s, layout disabled %s, %s" % (debug, not opt, nolayout, orient)
                    if ps is None or not ps:
                        ck.undecided("flags:cut", what + str(w.panics[:1]))
                        continue
                    for p, vgr in ps:
                        E = [x[0] for x in events(p.st)]
                        if p.st.mon.get("opaque") is not None and len(ps) > 1:
                            ck.undecided("flags:opaque", what)
                            continue
                        for k, on in (("rank", opt), ("cross", opt), ("align", not nolayout), ("fix", not nolayout)):
                            nm = {"rank": "the rank optimiser", "cross": "the crossing optimiser", "align": "the alignment pass", "fix": "the edge fixer"}[k]
                            if (k in E) == on:
                                ck.ok("flags:" + k, what)
                            else:
                                ck.violation("flags:%s:%s" % (k, on), "%s %s with %s" % (nm, "runs" if k in E else "does not run", what), site)
                        d = p.st.mon.get("g:drawn")
                        for x in d.a if d is not None else ():
                            if x.a[2][0] is Lit("node"):
                                v = x.a[2][2]
                                if v.k != "int":
                                    ck.undecided("flags:debug", show(v))
                                elif bool(v.a[0]) == debug:
                                    ck.ok("flags:debug", what)
                                else:
                                    ck.violation("flags:debug", "the elements are drawn with debug mode %s, with %s" % (bool(v.a[0]), what), site)


def boxed(w, i, orient):
    from graph import FLT, PT
    T = w.T
    e = w.element(i, orient)
    z = lambda x, y: PT(T, FLT(x), FLT(y))
    pos = T.make(w.pos, {"middle": z(0, 0), "size": z(20 + 7 * i, 10), "center": z(0, 0), "halo": z(5, 5)})
    return T.make(w.elem, {n: (pos if n == "pos" else T.get(e, n)) for n in ("shape", "look", "orientation", "pos", "properties")})
