"""Shared infrastructure of the checks: program loading, verdicts, evidence."""
import fcntl
import hashlib
import json
import multiprocessing
import os
import subprocess
import sys
import time
from terms import *
from prog import Prog
from core import *

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Missing(Exception):
    """a public entry point of the analysed program is gone"""


def dump():
    """(re)export MIR of the current working tree; returns the dump directory"""
    b = os.path.join(V, ".build")
    os.makedirs(b, exist_ok=True)
    out = os.environ.get("VERIF_DUMP")
    if out:
        return out
    out = os.path.join(b, "dump-%d" % os.getpid())
    with open(os.path.join(b, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["bash", os.path.join(V, "bin/dump.sh"), out, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        subprocess.run(["rm", "-rf", out])
        print(r.stdout[-3000:])
        print("ERROR: could not compile /repo for analysis")
        sys.exit(2)
    return out


class Check:
    def __init__(self, pid, tier, dumpdir):
        self.pid, self.tier, self.dumpdir = pid, tier, dumpdir
        self.viol = {}          # key -> dict
        self.undec = {}
        self.obl = {}           # obligation name -> count
        self.notes = []
        self.samples = {}
        self.extra = {}
        self.t0 = time.time()
        self.known = set()
        self.found = multiprocessing.get_context("fork").Value("d", 0.0)      # when the first violation was seen, in any process
        self._progs = {}
        self.missing = []

    def left(self):
        """seconds of the check's time that remain (soon none once a violation is known)"""
        r = (700 if self.thorough else 300) - (time.time() - self.t0)
        if self.found.value:
            r = min(r, self.found.value + 30 - time.time())
        return r

    @property
    def thorough(self):
        return self.tier == "thorough"

    def prog(self, which="lib"):
        if which not in self._progs:
            self._progs[which] = Prog(os.path.join(self.dumpdir, "layout.%s.json" % which))
        return self._progs[which]

    def fn(self, name, which="lib"):
        f = self.prog(which).by_name.get(name)
        if f is None or f.raw is None:
            raise Missing("function %s" % name)
        return f

    # verdicts
    def ok(self, name, what=None):
        self.obl[name] = self.obl.get(name, 0) + 1
        if what is not None:
            l = self.samples.setdefault(name, [])
            if len(l) < 6 and what not in l:
                l.append(what)

    def violation(self, key, msg, site, trace=None):
        if key not in self.viol:
            self.viol[key] = {"key": key, "message": msg, "site": site, "trace": trace or []}
            if key not in self.known and not self.found.value:
                self.found.value = time.time()

    def undecided(self, key, msg, site=""):
        if key not in self.undec:
            self.undec[key] = {"key": key, "message": msg, "site": site, "n": 0}
        self.undec[key]["n"] += 1


def trace_of(p, st, n=40):
    out = []
    t = st.trace
    while t is not None and len(out) < n:
        prev, short, sp, what = t
        w = ""
        if what:
            w = "%s -> %s" % (show(what[0])[:160], show(what[1])[:20] if isinstance(what[1], T) else what[1])
        out.append("%s %s: %s" % (p.line(sp) if sp else "?", short, w))
        t = prev
    return out[::-1]


# ------------------------------------------------------------------ comparing
def str_chars(t):
    """sequence of char terms, or None if some part is opaque"""
    out = []
    for p in str_parts(t):
        if p.k == "lit":
            out += [Int(ord(c)) for c in p.a[0]]
        elif p.k == "ch":
            out.append(p.a[0])
        else:
            return None
    return out


_free = {}
CONDS = {"streq", "same", "and", "or", "not", "cmp", "fcmp", "mhas"}
BITS = {"Shl", "Shr", "ShlUnchecked", "ShrUnchecked", "BitAnd", "BitOr", "BitXor", "Div", "Rem"}


def free(t):
    """built from program inputs only (no widened or havocked symbols)"""
    r = _free.get(t)
    if r is None:
        r = (t.k != "sym" or t.a[0] == "t") and not (t.k == "op" and t.a[0] in BITS or t.k == "app" and t.a[0] in UNKNOWN) and all(free(x) for x in children(t))
        _free[t] = r
    return r


def same(e, st, x, y):
    """True: equal on this path; False: some input on this path makes them differ; None: not decided"""
    if x is y:
        return True
    if x.k == "ref" and y.k == "ref":
        return same(e, st, e.loadref(st, x), e.loadref(st, y))
    if x.k == "agg" and y.k == "agg":
        if x.a[1] != y.a[1] or len(x.a[2]) != len(y.a[2]):
            return False
        return all3(same(e, st, a, b) for a, b in zip(x.a[2], y.a[2]))
    if (x.k == "agg") != (y.k == "agg"):
        g, o = (x, y) if x.k == "agg" else (y, x)
        if o.k in ("in", "fld", "elem", "sym") and g.a[0] >= 0 and e.p.tys[g.a[0]]["k"] == "adt":
            t = e.p.tys[g.a[0]]
            if t["ak"] == "enum":
                d = e.decide(st, eq(e.disc(st, o, g.a[0]), e.disc(st, g, g.a[0])))
                if d is not True:
                    return d if d is False or not free(o) else False
            if g.a[2] or t["ak"] == "enum":
                return all3(same(e, st, a, e.fieldof(st, o, g.a[1] if t["ak"] == "enum" else None, i)) for i, a in enumerate(g.a[2]))
    cx, cy = str_const(x), str_const(y)
    if x.k == "str" or y.k == "str":
        if cx is not None and cy is not None:
            return cx == cy
        d = e.decide(st, e.streq(x, y))
        if d is not None:
            return d
        lx, ly = str_chars(x), str_chars(y)
        if lx is not None and ly is not None:
            if len(lx) != len(ly):
                return False
            return all3(same(e, st, a, b) for a, b in zip(lx, ly))
        # constant versus input-derived text
        if free(x) and free(y):
            return same_parts(e, st, str_parts(x), str_parts(y))
        return None
    if x.k == "list" or y.k == "list":
        bx, ux, ix = list_parts(x)
        by, uy, iy = list_parts(y)
        if bx is None and by is None:
            if len(ix) != len(iy):
                return False
            return all3(same(e, st, a, b) for a, b in zip(ix, iy))
        if bx is by and not ux and not uy:
            if len(ix) != len(iy):
                return False
            return all3(same(e, st, a, b) for a, b in zip(ix, iy))
        lx, ly = list_len(x), list_len(y)
        if lx is not ly and e.decide(st, eq(lx, ly)) is False:
            return False
        # a list that stands for several lengths against one of a known length
        if e.gen_lists and (bx is None and by.k == "sym" and not iy or by is None and bx.k == "sym" and not ix):
            return False
        return None
    if x.k in CONDS or y.k in CONDS:
        d, q = (e.decide(st, z) for z in (x, y))
        if d is not None and q is not None:
            return d == q
        if d is None and q is None:
            return None
    if x.k in ("int", "lin") or y.k in ("int", "lin") or x.k == "elem" and y.k == "elem":
        d = e.decide(st, eq(x, y))
        if d is not None:
            return d
        if x.k == "elem" and y.k == "elem" and x.a[0] is y.a[0]:
            d = e.decide(st, eq(x.a[1], y.a[1]))
            if d is False and free(x.a[0]):
                return False
            return None
    if x.k == "elem" and x.a[0].k == "chars" and y.k == "int":
        return False if free(x.a[0]) else None
    if y.k == "elem" and y.a[0].k == "chars" and x.k == "int":
        return False if free(y.a[0]) else None
    if free(x) and free(y):
        return False
    return None


def same_parts(e, st, px, py):
    if px == py:
        return True
    return False


def all3(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r


# ------------------------------------------------------------------ splitting the work
class Sub:
    pass


def parallel(ck, items, fn, procs=8, chunk=None):
    """fn(ck, item) for every item, on several processes; verdicts are merged into ck"""
    import multiprocessing as mp
    items = list(items)
    if not items:
        return
    n = min(procs, len(items))
    parts = [items[i::n] for i in range(n)]
    ctx = mp.get_context("fork")

    def work(part, conn):
        sub = ck
        sub.viol, sub.undec, sub.obl, sub.samples, sub.missing, sub.notes = {}, {}, {}, {}, [], []
        skipped = 0
        try:
            for it in part:
                if sub.left() < 5:
                    skipped += 1
                    continue
                try:
                    fn(sub, it)
                except Missing as m:
                    sub.missing.append(str(m))
                except Exception as ex:     # an unexpected construct decides nothing
                    import traceback
                    sub.undecided("internal:%s" % type(ex).__name__, traceback.format_exc()[-1500:])
            conn.send((sub.viol, sub.undec, sub.obl, sub.samples, sub.missing, skipped, sub.notes))
        finally:
            conn.close()
            os._exit(0)
    ps = []
    sys.stdout.flush()
    for part in parts:
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=work, args=(part, b))
        p.start()
        b.close()
        ps.append((p, a))
    for p, a in ps:
        try:
            viol, undec, obl, samples, missing, skipped, notes = a.recv()
        except EOFError:
            ck.undecided("worker", "a worker process ended without an answer")
            continue
        for k, v in viol.items():
            ck.viol.setdefault(k, v)
        for k, v in undec.items():
            if k in ck.undec:
                ck.undec[k]["n"] += v["n"]
            else:
                ck.undec[k] = v
        for k, v in obl.items():
            ck.obl[k] = ck.obl.get(k, 0) + v
        for k, v in samples.items():
            l = ck.samples.setdefault(k, [])
            l += [x for x in v if x not in l][:6 - len(l)]
        for m in missing:
            if m not in ck.missing:
                ck.missing.append(m)
        ck.notes += [x for x in notes if x not in ck.notes]
        if skipped:
            ck.undecided("time", "%d cases not analysed in the time" % skipped)
        p.join()
