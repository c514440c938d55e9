"""Path-sensitive abstract interpreter over exported MIR.

Abstract states = call stack + symbolic memory + facts (interval sets over
linear expressions, known string (in)equalities) + monitor states.  States are
compared modulo renaming of symbols; loop heads widen.  No solver, no
execution of the analysed program.
"""
import time
import re
from terms import *

OPREF = re.compile(r"<(&?)([iu](?:8|16|32|64|128|size)|f32|f64) as std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)<(&?)[a-z0-9]+>>::[a-z]+$")
OPASSIGN = re.compile(r"<([iu](?:8|16|32|64|128|size)|f32|f64) as std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)Assign<(&?)[a-z0-9]+>>::[a-z_]+$")

INF = float("inf")
FULL = ((-INF, INF),)
USIZE = ((0, INF),)
BOOLR = ((0, 1),)


def iv_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_not(a):
    out = []
    lo = -INF
    for x, y in a:
        if x > lo:
            out.append((lo, x - 1))
        lo = y + 1
    if lo != INF and lo <= INF:
        out.append((lo, INF))
    return tuple(out)


class Frame:
    __slots__ = ("fn", "bb", "dest", "ret", "cont", "sp", "snap")

    def __init__(s, fn, bb, dest, ret, cont=None, sp=None, snap=None):
        s.fn, s.bb, s.dest, s.ret, s.cont, s.sp, s.snap = fn, bb, dest, ret, cont, sp, snap

    def copy(s):
        return Frame(s.fn, s.bb, s.dest, s.ret, s.cont, s.sp, s.snap)


def grown(a, b):
    """0: the same value; 1: the same but for lists and texts that only got longer at their end; None: another value"""
    if a is b:
        return 0
    if not isinstance(a, T) or not isinstance(b, T):
        return None
    if a.k == "agg" and b.k == "agg" and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]):
        r = 0
        for x, y in zip(a.a[2], b.a[2]):
            g = grown(x, y)
            if g is None:
                return None
            r |= g
        return r
    if b.k == "list":
        (ba, ua, ia), (bb, ub, ib) = list_parts(a), list_parts(b)
        return 1 if ba is bb and ua == ub and len(ib) > len(ia) and ib[:len(ia)] == ia else None
    if b.k == "str" and a.k in ("str", "sym"):
        pa, pb = str_parts(a), str_parts(b)
        if len(pb) >= len(pa) and pb[:max(len(pa) - 1, 0)] == pa[:-1]:
            if not pa or pb[len(pa) - 1] is pa[-1] or pa[-1].k == "lit" and pb[len(pa) - 1].k == "lit" and pb[len(pa) - 1].a[0].startswith(pa[-1].a[0]):
                return 1
    return None


def key_rank(k):
    """where a known key stands among its like"""
    if k.k == "int":
        return (0, k.a[0])
    if k.k == "str" and all(x.k == "lit" for x in k.a[0]):
        return (1, "".join(x.a[0] for x in k.a[0]).encode("utf-8", "surrogatepass"))
    return None


class St:
    __slots__ = ("frames", "mem", "facts", "mon", "nsym", "trace", "heads", "forks", "fresh_fork", "result")

    def copy(s):
        n = St()
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem)
        n.facts = dict(s.facts)
        n.mon = dict(s.mon)
        n.nsym = s.nsym
        n.trace = s.trace
        n.heads = dict(s.heads)
        n.forks = s.forks
        n.fresh_fork = s.fresh_fork
        n.result = s.result
        return n


class Budget(Exception):
    pass


class Infeasible(Exception):
    pass


class Violation(Exception):
    pass


class Eng:
    def __init__(self, prog, max_states=200000, max_time=600, max_rec=3, widen_delay=1):
        self.p = prog
        self.intr = {}
        self.handlers = {}
        self.on_call = []          # (eng, st, fn, args, sp) observers
        self.on_write = []
        self.on_panic = None
        self.on_assert = None
        self.on_index = None
        self.on_head = None
        self.on_hang = None        # (eng, st, what, sp): a loop or recursion returned to where it was without reading anything
        self.max_states, self.max_time, self.max_rec = max_states, max_time, max_rec
        self.widen_delay = widen_delay
        self.visited = set()
        self.stats = {"states": 0, "steps": 0, "forks": 0, "unknown": {}, "inlined": {}, "recursion_cut": {}, "heads": 0, "dedup": 0, "paths": 0}
        self.violations = []
        self.root_key = 0
        self.after = []
        self.on_next = []
        self.on_access = []
        self.split_insert = True
        self.map_orders = False
        self.max_steps = None
        self.cur = None
        self.join_heads = False
        self.unroll = 0
        self.shuffle = None
        self.acc = {}
        self.diverged = []
        self.parted = {}
        self.gen_lists = False
        self.keep_fcmp = False
        self.reals = None
        self.track_opaque = False
        import intrin
        intrin.install(self)

    # ------------------------------------------------------------ state basics
    def new_state(self):
        s = St()
        s.frames, s.mem, s.facts, s.mon = [], {}, {}, {}
        s.nsym, s.trace, s.heads, s.forks = 0, None, {}, 0
        s.fresh_fork = False
        s.result = None
        return s

    def fresh(self, st, name, ty=None):
        st.nsym += 1
        t = mk("sym", name, st.nsym)
        if ty is not None:
            t.ty = ty
        return t

    def heap(self, st, val):
        c = ("H", self.fresh(st, "h"))
        st.mem[c] = val
        return mk("ref", c, ())

    # ------------------------------------------------------------ memory
    def cell(self, st, c):
        v = st.mem.get(c)
        if v is None:
            k = c[0]
            if k == "K":
                return c[1]
            if k == "D":
                v = mk("*", c[1])
            elif k == "S":
                return self.p.static_val(c[1])
            else:
                v = UNDEF
        return v

    def deref(self, st, v):
        """pointer value -> (cell, path)"""
        if v.k == "ref":
            return v.a[0], v.a[1]
        if v.k in ("int", "undef", "agg", "list", "str", "flt", "map"):
            return ("K", v), ()
        return ("D", v), ()

    def fieldof(self, st, v, var, i):
        k = v.k
        if k == "agg":
            if i < len(v.a[2]):
                return v.a[2][i]
            return UNDEF
        if k == "ref":
            return v
        if k == "undef":
            return UNDEF
        if k == "iter":
            return v
        return mk("fld", v, var, i)

    def rd(self, st, v, path):
        var = None
        for e in path:
            k = e[0]
            if k == "f":
                v = self.fieldof(st, v, var, e[1])
                var = None
            elif k == "d":
                var = e[1]
                if v.k == "agg":
                    var = None
            elif k == "i":
                v = self.list_get(st, v, e[1])
            elif k == "s":
                v = self.subslice(v, e[1], e[2])
            elif k == "mv":        # value slot of a map
                v = self.map_get_known(st, v, e[1])
        return v

    def load(self, st, cell, path):
        return self.rd(st, self.cell(st, cell), path)

    def loadref(self, st, r):
        c, p = self.deref(st, r)
        return self.load(st, c, p)

    def expand(self, v, ty, var):
        """turn a symbolic/undef value into an aggregate of type ty"""
        t = self.p.tys[ty]
        if t["k"] == "adt":
            n = len(t["v"][var or 0]["f"]) if t["v"] else 0
            return agg(ty, var or 0, [self.fieldof(None, v, var if t["ak"] == "enum" else None, i) for i in range(n)])
        if t["k"] == "tuple":
            return agg(-1, 0, [self.fieldof(None, v, None, i) for i in range(len(t["f"]))])
        if t["k"] == "closure":
            return agg(ty, 0, [])
        return None

    def wr(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "f":
            if v.k == "ref":
                return new
            if v.k != "agg":
                x = self.expand(v, e[2], None)
                if x is None:
                    return self.fresh(st, "w")
                v = x
            fs = list(v.a[2])
            while len(fs) <= e[1]:
                fs.append(UNDEF)
            fs[e[1]] = self.wr(st, fs[e[1]], path[1:], new)
            return agg(v.a[0], v.a[1], fs)
        if e[0] == "d":
            if v.k != "agg":
                v = self.expand(v, e[2], e[1]) or v
            elif v.a[1] != e[1]:
                v = agg(v.a[0] if v.a[0] != -1 else e[2], e[1], v.a[2])
            return self.wr(st, v, path[1:], new)
        if e[0] == "i":
            old = self.list_get(st, v, e[1])
            return self.list_set(st, v, e[1], self.wr(st, old, path[1:], new))
        if e[0] == "s":
            if v.k == "list" and v.a[0] is None and not v.a[1] and e[1].k == "int" and e[2].k == "int":
                lo, hi, it = e[1].a[0], e[2].a[0], v.a[2]
                n = self.wr(st, mk("list", None, (), it[lo:hi]), path[1:], new)
                if n.k == "list" and n.a[0] is None and not n.a[1] and len(n.a[2]) == hi - lo:
                    return mk("list", None, (), it[:lo] + n.a[2] + it[hi:])
            return self.fresh(st, "w")
        if e[0] == "mv":
            old = self.map_get_known(st, v, e[1])
            return self.map_set(st, v, e[1], self.wr(st, old, path[1:], new))
        raise Exception("wr %r" % (e,))

    def store(self, st, cell, path, new, sp=None):
        if self.on_write:
            for h in self.on_write:
                h(self, st, cell, path, new, sp)
        if cell[0] == "K":
            st.mem[("K", cell[1])] = self.wr(st, cell[1], path, new)
            return
        if cell[0] == "S":
            return
        if not path:
            st.mem[cell] = new
        else:
            st.mem[cell] = self.wr(st, self.cell(st, cell), path, new)

    def storeref(self, st, r, new, sp=None):
        c, p = self.deref(st, r)
        self.store(st, c, p, new, sp)

    # ------------------------------------------------------------ lists
    def list_get(self, st, v, i):
        b, u, items = list_parts(v)
        for ui, uv in reversed(u):
            if ui is i:
                return uv
            d = self.decide(st, eq(ui, i)) if st is not None else None
            if d is False:
                continue
            if d is True:
                return uv
            return mk("elem", v, i)
        if b is None:
            if i.k == "int":
                if 0 <= i.a[0] < len(items):
                    return items[i.a[0]]
                return UNDEF
            return mk("elem", v, i)
        if items:
            j = sub(i, mk_len(b))
            if j.k == "int" and 0 <= j.a[0] < len(items):
                return items[j.a[0]]
            if self.decide(st, lt(i, mk_len(b))) is not True:
                if j.k == "int":
                    pass
                else:
                    # could be in the appended part
                    if self.decide(st, lt(i, mk_len(b))) is False:
                        return mk("elem", v, i)
                    return mk("elem", v, i)
        return self.base_get(b, i)

    def base_get(self, b, i):
        if b.k == "slice":
            return self.list_get(None, b.a[0], add(b.a[1], i))
        if b.k == "rep":
            return b.a[0]
        if b.k == "rev":
            return self.list_get(None, b.a[0], sub(addc(list_len(b.a[0]), -1), i))
        r = mk("elem", b, i)
        if b.k == "chars" and r.ty is None:
            r.ty = self.p.ty_by_d.get("char")
        return r

    def list_set(self, st, v, i, x):
        b, u, items = list_parts(v)
        if b is None:
            if i.k == "int" and 0 <= i.a[0] < len(items):
                it = list(items)
                it[i.a[0]] = x
                return mk("list", None, u, tuple(it))
            return mk_list(self.fresh(st, "wl"), (), ())
        j = sub(i, mk_len(b))
        if j.k == "int" and 0 <= j.a[0] < len(items):
            it = list(items)
            it[j.a[0]] = x
            return mk_list(b, u, it)
        nu = []
        for ui, uv in u:
            if ui is i:
                continue
            nu.append((ui, uv))
        nu.append((i, x))
        return mk_list(b, nu, items)

    def list_push(self, v, x):
        b, u, items = list_parts(v)
        return mk("list", b, u, items + (x,))

    def subslice(self, v, a, b):
        """a, b: terms"""
        if a.k == "int" and a.a[0] == 0 and b is list_len(v):
            return v
        bb, u, items = list_parts(v)
        if bb is None and a.k == "int" and b.k == "int" and not u:
            return mk("list", None, (), items[a.a[0]:b.a[0]])
        return mk("slice", v, a, b)

    # ------------------------------------------------------------ maps
    # map(base|None, ((k,v|None)...))   None = removed
    def map_parts(self, m):
        if m.k == "map":
            return m.a
        return (m, ())

    def map_set(self, st, m, k, v):
        b, u = self.map_parts(m)
        eqk = lambda x: x is k or st is not None and self.decide(st, self.eqterm(x, k)) is True
        for j, (x, y) in enumerate(u):
            if eqk(x) and (j == len(u) - 1 or st is not None and all(self.decide(st, self.eqterm(z, k)) is False for z, _ in u[j + 1:])):
                return mk("map", b, u[:j] + ((x, v),) + u[j + 1:])
        u = tuple((x, y) for x, y in u if not eqk(x)) + ((k, v),)
        if b is None:       # keys that are known: in their order (that of a BTreeMap, and as good as any for a hash map)
            ks = [key_rank(x) for x, _ in u]
            if None not in ks and len({z[0] for z in ks}) == 1 and all(y is not None for _, y in u):
                u = tuple(u[j] for j in sorted(range(len(u)), key=lambda j: ks[j]))
        return mk("map", b, u)

    def map_get_known(self, st, m, k):
        b, u = self.map_parts(m)
        for x, y in reversed(u):
            if x is k:
                return y
            d = self.decide(st, self.eqterm(x, k))
            if d is False:
                continue
            if d is True:
                return y
            return mk("mget", m, k)
        if b is None:
            return UNDEF
        return mk("mget", b, k)

    def eqterm(self, x, y):
        """boolean term: x == y for map keys (strings, ints)"""
        if x is y:
            return TRUE
        cx, cy = str_const(x), str_const(y)
        if cx is not None and cy is not None:
            return Bool(cx == cy)
        if cx is not None or cy is not None or x.k == "str" or y.k == "str":
            return self.streq(x, y)
        if x.k in ("int", "lin") or y.k in ("int", "lin"):
            return eq(x, y)
        if x.k == "agg" and y.k == "agg" and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]):
            r = TRUE
            for p, q in zip(x.a[2], y.a[2]):
                r = and_(r, self.eqterm(p, q))
            return r
        if x.k == "agg" and y.k == "agg" and x.a[0] == y.a[0] and x.a[0] >= 0 and x.a[1] != y.a[1]:
            return FALSE
        if x.k == "list" and y.k == "list" and x.a[0] is None and y.a[0] is None and not x.a[1] and not y.a[1]:
            if len(x.a[2]) != len(y.a[2]):
                return FALSE
            r = TRUE
            for p, q in zip(x.a[2], y.a[2]):
                r = and_(r, self.eqterm(p, q))
            return r
        if x.k == "flt" and y.k == "flt":
            return Bool(float(x.a[0]) == float(y.a[0]))
        if self.is_str_ty(x.ty) or self.is_str_ty(y.ty):
            return self.streq(x, y)
        a, b = (x, y) if x.id < y.id else (y, x)
        return mk("same", a, b)

    def is_str_ty(self, t):
        if t is None:
            return False
        t = self.p.tys[t]
        return t["k"] == "str" or t["k"] == "adt" and t["n"].endswith("string::String")

    def streq(self, x, y):
        if x is y:
            return TRUE
        cx, cy = str_const(x), str_const(y)
        if cx is not None and cy is not None:
            return Bool(cx == cy)
        if cx is not None:
            x, y, cx, cy = y, x, cy, cx
        if cy is not None:
            ps = str_parts(x)
            # decide by shape: all-char strings of known length
            if x.k == "str":
                if all(p.k in ("lit", "ch") for p in ps):
                    n = sum(len(p.a[0]) if p.k == "lit" else 1 for p in ps)
                    if n != len(cy):
                        return FALSE
                    r = TRUE
                    i = 0
                    for p in ps:
                        if p.k == "lit":
                            if cy[i:i + len(p.a[0])] != p.a[0]:
                                return FALSE
                            i += len(p.a[0])
                        else:
                            r = and_(r, eq(p.a[0], Int(ord(cy[i]))))
                            i += 1
                    return r
                if ps and ps[0].k == "lit" and not cy.startswith(ps[0].a[0]):
                    return FALSE
                if ps and ps[-1].k == "lit" and not cy.endswith(ps[-1].a[0]):
                    return FALSE
            return mk("streq", x, y)
        if x.k == "str" and y.k == "str":
            cx, cy = self.chars_of(x), self.chars_of(y)
            if cx is not None and cy is not None:
                if len(cx) != len(cy):
                    return FALSE
                r = TRUE
                for p, q in zip(cx, cy):
                    if p is not q:
                        r = and_(r, eq(p, q))
                return r
        a, b = (x, y) if x.id < y.id else (y, x)
        return mk("streq", a, b)

    @staticmethod
    def chars_of(t):
        """the characters of a text all of whose parts are characters, else None"""
        out = []
        for p in t.a[0]:
            if p.k == "lit":
                out += [Int(ord(c)) for c in p.a[0]]
            elif p.k == "ch":
                out.append(p.a[0])
            else:
                return None
        return out

    # ------------------------------------------------------------ facts
    def default_range(self, lv):
        t = lv
        if t.k in ("cmp", "fcmp", "streq", "same", "and", "mhas", "ovf"):
            return BOOLR
        if t.k == "len":
            return USIZE
        if t.k == "app" and t.a[0] == "utf8len":
            return ((1, 4),)
        if t.k == "disc":
            if t.ty is not None:
                ty = self.p.tys[t.ty]
                if ty["k"] == "adt" and ty["ak"] == "enum":
                    vs = sorted(int(v["d"]) for v in ty["v"])
                    return iv_norm(vs)
            return FULL
        if t.ty is not None:
            k = self.p.tys[t.ty]["k"]
            if k == "uint":
                return ((0, INF),)
            if k == "bool":
                return BOOLR
            if k == "char":
                return ((0, 0x10FFFF),)
        if t.k == "app" and t.a[0].endswith("?bool"):
            return BOOLR
        return FULL

    def rng(self, st, lv):
        r = st.facts.get(lv)
        if r is None:
            r = self.default_range(lv)
            if r is FULL and lv.k == "lin":
                # interval arithmetic over the atoms
                lo = hi = lv.a[0]
                for a, c in lv.a[1]:
                    ra = st.facts.get(a) or self.default_range(a)
                    if not ra:
                        return ()
                    l, h = ra[0][0], ra[-1][1]
                    if c > 0:
                        lo, hi = lo + c * l, hi + c * h
                    else:
                        lo, hi = lo + c * h, hi + c * l
                if lo != -INF or hi != INF:
                    return ((lo, hi),)
        return r

    def decide(self, st, c):
        k = c.k
        if k == "int":
            return bool(c.a[0])
        if k == "not":
            d = self.decide(st, c.a[0])
            return None if d is None else not d
        if k == "and":
            d1 = self.decide(st, c.a[0])
            if d1 is False:
                return False
            d2 = self.decide(st, c.a[1])
            if d2 is False:
                return False
            if d1 and d2:
                return True
            return None
        if k == "cmp":
            cst, lv, s = lv_split(c.a[1])
            r = self.rng(st, lv)
            if not r:
                return None
            if c.a[0] == "lt":
                # cst + s*lv < 0
                lo, hi = r[0][0], r[-1][1]
                if s > 0:
                    if hi < -cst:
                        return True
                    if lo >= -cst:
                        return False
                else:
                    if lo > cst:
                        return True
                    if hi <= cst:
                        return False
            else:
                x = -cst if s > 0 else cst
                if len(r) == 1 and r[0][0] == r[0][1] == x:
                    return True
                if not any(l <= x <= h for l, h in r):
                    return False
            return None
        if k == "streq":
            y = str_const(c.a[1])
            x = c.a[0]
            if y is not None:
                f = st.facts.get(mk("sf", x))
                if f is not None:
                    if f[0] == "eq":
                        return f[1] == y
                    if y in f[1]:
                        return False
                return None
            fx, fy = st.facts.get(mk("sf", x)), st.facts.get(mk("sf", c.a[1]))
            if fx and fy and fx[0] == "eq" and fy[0] == "eq":
                return fx[1] == fy[1]
        if k == "fcmp":
            d = st.facts.get(c)
            if d is None:
                return self.reals.decide(c) if self.reals is not None else None
            return bool(d[0][0])
        r = st.facts.get(c)
        if r is None:
            return None
        if r == ((0, 0),):
            return False
        if r == ((1, 1),):
            return True
        if len(r) == 1 and r[0][0] == r[0][1]:
            return bool(r[0][0])
        return None

    def assume(self, st, c, truth):
        """add fact; returns False if infeasible"""
        k = c.k
        if k == "int":
            return bool(c.a[0]) == truth
        if k == "not":
            return self.assume(st, c.a[0], not truth)
        if k == "and":
            if truth:
                return self.assume(st, c.a[0], True) and self.assume(st, c.a[1], True)
            d1 = self.decide(st, c.a[0])
            if d1 is True:
                return self.assume(st, c.a[1], False)
            d2 = self.decide(st, c.a[1])
            if d2 is True:
                return self.assume(st, c.a[0], False)
            if d1 is False or d2 is False:
                return True
            st.facts[c] = ((0, 0),)
            return True
        if k == "cmp":
            cst, lv, s = lv_split(c.a[1])
            if c.a[0] == "lt":
                if s > 0:      # lv <= -cst-1
                    iv = ((-INF, -cst - 1),) if truth else ((-cst, INF),)
                else:          # lv > cst
                    iv = ((cst + 1, INF),) if truth else ((-INF, cst),)
            else:
                x = -cst if s > 0 else cst
                iv = ((x, x),)
                if not truth:
                    iv = ((-INF, x - 1), (x + 1, INF))
            r = iv_and(self.rng(st, lv), iv)
            if not r:
                return False
            st.facts[lv] = r
            return True
        if k == "streq" and str_const(c.a[1]) is not None:
            y = str_const(c.a[1])
            key = mk("sf", c.a[0])
            f = st.facts.get(key)
            if truth:
                if f is not None:
                    if f[0] == "eq":
                        return f[1] == y
                    if y in f[1]:
                        return False
                st.facts[key] = ("eq", y)
            else:
                if f is not None and f[0] == "eq":
                    return f[1] != y
                st.facts[key] = ("ne", (f[1] if f else frozenset()) | {y})
            return True
        d = self.decide(st, c)
        if d is not None:
            return d == truth
        st.facts[c] = ((1, 1),) if truth else ((0, 0),)
        if k == "app" and self.track_opaque:
            st.mon["opaque"] = mk("op1", c)
        if k == "fcmp" and self.keep_fcmp:
            old = st.mon.get("fcmp")
            st.mon["fcmp"] = mk("fc", *((old.a if old is not None else ()) + (c if truth else not_(c),)))
        return True

    def restrict(self, st, v, iv):
        """restrict an integer-valued term to an interval set"""
        if v.k == "int":
            return any(l <= v.a[0] <= h for l, h in iv)
        cst, lv, s = lv_split(v)
        if s > 0:
            iv2 = tuple((l - cst, h - cst) for l, h in iv)
        else:
            iv2 = tuple(sorted((cst - h, cst - l) for l, h in iv))
        r = iv_and(self.rng(st, lv), iv2)
        if not r:
            return False
        st.facts[lv] = r
        if lv.k == "app" and self.track_opaque:
            st.mon["opaque"] = mk("op1", lv)
        return True

    def split(self, st, c):
        """-> (st_true|None, st_false|None); st may be reused"""
        d = self.decide(st, c)
        if d is True:
            return st, None
        if d is False:
            return None, st
        s2 = st.copy()
        self.forked(st)
        self.forked(s2)
        a = st if self.assume(st, c, True) else None
        b = s2 if self.assume(s2, c, False) else None
        return a, b

    def forked(self, st):
        st.forks += 1
        st.fresh_fork = True
        self.stats["forks"] += 1

    # ------------------------------------------------------------ places
    def place(self, st, depth, pl):
        cell = ("L", depth, pl[0])
        path = ()
        if not pl[1]:
            return cell, path
        for e in pl[1]:
            if e == "*":
                v = self.load(st, cell, path)
                if v.k == "ref":
                    cell, path = v.a
                else:
                    cell, path = self.deref(st, v)
            elif e[0] == "i":
                idx = st.mem.get(("L", depth, e[1]), UNDEF)
                if path and path[-1][0] == "s":
                    path = path[:-1] + (("i", add(path[-1][1], idx)),)
                else:
                    path = path + (("i", idx),)
            elif e[0] == "c":
                if e[2]:
                    l = list_len(self.load(st, cell, path))
                    path = path + (("i", addc(l, -e[1])),)
                else:
                    path = path + (("i", Int(e[1])),)
            elif e[0] == "s":
                l = list_len(self.load(st, cell, path))
                to = addc(l, -e[2]) if e[3] else Int(e[2])
                path = path + (("s", Int(e[1]), to),)
            else:
                path = path + (e,)
        return cell, path

    def op(self, st, depth, o):
        if o[0] == 1:
            return o[1]
        pl = o[1]
        if not pl[1]:
            v = st.mem.get(("L", depth, pl[0]), UNDEF)
        else:
            c, p = self.place(st, depth, pl)
            v = self.load(st, c, p)
        if v.ty is None and pl[2] is not None and v.k in ("fld", "elem", "*", "mget", "sym", "in", "app", "op"):
            v.ty = pl[2]
        return v

    # ------------------------------------------------------------ rvalues
    def binop(self, st, o, x, y, ty):
        tk = self.p.tys[ty]["k"] if ty is not None else "?"
        if tk == "float" or x.k == "flt" or y.k == "flt":
            return self.fbin(o, x, y)
        if tk in ("ref", "ptr") and o in ("Eq", "Ne"):
            r = TRUE if x is y else mk("same", *sorted((x, y), key=lambda t: t.id))
            return r if o == "Eq" else not_(r)
        if tk == "bool":
            if o == "BitAnd":
                return and_(x, y)
            if o == "BitOr":
                return or_(x, y)
            if o in ("Eq", "Ne", "BitXor"):
                if x.k == "int":
                    r = y if x.a[0] else not_(y)
                elif y.k == "int":
                    r = x if y.a[0] else not_(x)
                else:
                    r = TRUE if x is y else mk("same", *sorted((x, y), key=lambda t: t.id))
                return r if o == "Eq" else not_(r)
        if o in ("Add", "AddUnchecked"):
            return add(x, y)
        if o in ("Sub", "SubUnchecked"):
            return sub(x, y)
        if o in ("Mul", "MulUnchecked"):
            if x.k == "int":
                return mulc(y, x.a[0])
            if y.k == "int":
                return mulc(x, y.a[0])
            return mk("op", "Mul", *sorted((x, y), key=lambda t: t.id))
        if o == "Lt":
            return lt(x, y)
        if o == "Le":
            return le(x, y)
        if o == "Gt":
            return lt(y, x)
        if o == "Ge":
            return le(y, x)
        if o == "Eq":
            return eq(x, y)
        if o == "Ne":
            return not_(eq(x, y))
        if x.k == "int" and y.k == "int":
            a, b = x.a[0], y.a[0]
            try:
                if o == "Div":
                    return Int(abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
                if o == "Rem":
                    return Int(abs(a) % abs(b) * (1 if a >= 0 else -1))
                if o == "BitAnd":
                    return Int(a & b)
                if o == "BitOr":
                    return Int(a | b)
                if o == "BitXor":
                    return Int(a ^ b)
                if o in ("Shl", "ShlUnchecked"):
                    w = self.p.tys[ty].get("b", 64) if ty is not None else 64
                    return Int((a << b) & ((1 << w) - 1))
                if o in ("Shr", "ShrUnchecked"):
                    return Int(a >> b)
            except ZeroDivisionError:
                pass
        if o == "Cmp":
            if not hasattr(self, "_ord"):
                self._ord = next((i for i, q in enumerate(self.p.tys) if q.get("n") == "std::cmp::Ordering"), None)
            if self._ord is not None and tk != "bool":
                from intrin import mkord
                return mkord(self, st, x, y, self._ord)
            return mk("ordcmp", x, y)
        r = self.bits(st, o, x, y, ty)
        if r is not None:
            return r
        if o in ("BitAnd", "BitOr", "BitXor"):
            x, y = sorted((x, y), key=lambda t: t.id)
        r = mk("op", o, x, y)
        r.ty = ty
        return r

    def bits(self, st, o, x, y, ty):
        """bit operations that are linear on the values of this path"""
        if o in ("BitOr", "BitXor", "BitAnd") and x.k == "int":
            x, y = y, x
        if y.k != "int" or x.k not in ("lin", "sym", "in", "fld", "elem", "ch", "app") or ty is None:
            return None
        c = y.a[0]
        b = self.p.tys[ty].get("b", 64)
        r = self.rng0(st, x)
        if not r or r[0][0] < 0 or r[-1][1] >= 1 << b:
            return None
        hi = r[-1][1]
        if o in ("Shl", "ShlUnchecked") and 0 <= c < b:
            return mulc(x, 1 << c) if hi << c < 1 << b else None
        k, d = lin_parts(x)
        if o in ("BitOr", "BitXor"):
            m = 1 << c.bit_length()
            if k % m == 0 and all(v % m == 0 for v in d.values()):
                return addc(x, c)
        if o == "BitAnd" and c & (c + 1) == 0 and hi <= c:
            return x
        return None

    def fbin(self, o, x, y):
        if o in ("Lt", "Le", "Eq"):
            if x.k == "flt" and y.k == "flt":
                a, b = float(x.a[0]), float(y.a[0])
                return Bool(a < b if o == "Lt" else a <= b if o == "Le" else a == b)
            if o == "Eq" and x.id > y.id:
                x, y = y, x
            return mk("fcmp", o, x, y)
        if o == "Gt":
            return self.fbin("Lt", y, x)
        if o == "Ge":
            return self.fbin("Le", y, x)
        if o == "Ne":
            return not_(self.fbin("Eq", x, y))
        if x.k == "flt" and y.k == "flt":
            a, b = float(x.a[0]), float(y.a[0])
            try:
                if o == "Add":
                    return Flt(a + b)
                if o == "Sub":
                    return Flt(a - b)
                if o == "Mul":
                    return Flt(a * b)
                if o == "Div":
                    return Flt(a / b)
            except (ZeroDivisionError, OverflowError):
                pass
        if self.reals is not None and o in ("Add", "Sub"):
            # the inputs are finite
            for t, u in ((x, y), (y, x)):
                if t.k == "flt" and t.a[0] in ("inf", "-inf") and u.k != "flt":
                    return t if o == "Add" or t is x else Flt(-float(t.a[0]))
        if o in ("Add", "Mul") and x.id > y.id:
            x, y = y, x
        return mk("fop", o, x, y)

    def rvalue(self, st, depth, r):
        k = r[0]
        if k == "use":
            return self.op(st, depth, r[1])
        if k == "ref":
            pl = r[1]
            c, p = self.place(st, depth, pl)
            # a reborrow of a symbolic pointer is that pointer
            if c[0] == "D" and not p:
                return c[1]
            return mk("ref", c, p)
        if k == "agg":
            ops = [self.op(st, depth, o) for o in r[3]]
            if r[1] == "adt":
                t = self.p.tys[r[2]]
                if t["ak"] == "union" or t["n"] in TRANSP:
                    return ops[0] if ops else UNDEF
                return agg(r[2], r[4], ops)
            if r[1] == "tuple":
                return agg(-1, 0, ops)
            if r[1] == "closure":
                return agg(r[2], 0, ops)
            if r[1] == "array":
                return mk("list", None, (), tuple(ops))
            if r[1] == "rawptr":
                return ops[0]
            return self.fresh(st, "agg")
        if k == "bin":
            return self.binop(st, r[1], self.op(st, depth, r[2]), self.op(st, depth, r[3]), r[4])
        if k == "cbin":
            x, y = self.op(st, depth, r[2]), self.op(st, depth, r[3])
            v = self.binop(st, r[1], x, y, r[4])
            if v.k == "int":
                t = self.p.tys[r[4]]
                b = t.get("b", 64)
                lo, hi = (0, (1 << b) - 1) if t["k"] == "uint" else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
                return tup(v, Bool(not lo <= v.a[0] <= hi))
            return tup(v, mk("ovf", r[1], x, y, v))
        if k == "un":
            x = self.op(st, depth, r[2])
            if r[1] == "Not":
                tk = self.p.tys[r[3]]["k"] if r[3] is not None else "bool"
                if tk == "bool":
                    return not_(x)
                return mk("op", "Not", x)
            if r[1] == "Neg":
                if x.k == "flt":
                    return Flt(-float(x.a[0]))
                if r[3] is not None and self.p.tys[r[3]]["k"] == "float":
                    return x.a[1] if x.k == "fop" and x.a[0] == "Neg" else mk("fop", "Neg", x)
                return mulc(x, -1)
            if r[1] == "PtrMetadata":
                v = self.loadref(st, x)
                t = self.p.tys[r[3]] if r[3] is not None else {}
                e = self.p.tys[t["e"]]["k"] if "e" in t else ""
                if e == "str":
                    return self.strlen(v)
                return list_len(v)
            return mk("op", r[1], x)
        if k == "cast":
            return self.cast(st, r[1], self.op(st, depth, r[2]), r[3], r[4])
        if k == "disc":
            c, p = self.place(st, depth, r[1])
            v = self.load(st, c, p)
            return self.disc(st, v, r[1][2])
        if k == "len":
            c, p = self.place(st, depth, r[1])
            return list_len(self.load(st, c, p))
        if k == "rep":
            x = self.op(st, depth, r[1])
            n = r[2]
            if 0 <= n <= 64:
                return mk("list", None, (), (x,) * n)
            return mk_list(mk("rep", x, Int(n)), (), ())
        return self.fresh(st, "rv")

    def disc(self, st, v, ty):
        if v.k == "agg":
            t = v.a[0] if v.a[0] != -1 else ty
            d = int(self.p.tys[t]["v"][v.a[1]]["d"])
            if d >= 128 and self.p.tys[t]["n"] == "std::cmp::Ordering":
                d -= 256
            return Int(d)
        if v.k == "ordcmp":
            d = mk("disc", v)
            d.ty = ty
            return d
        d = mk("disc", v)
        if d.ty is None:
            d.ty = ty
        return d

    def cast(self, st, kind, x, ty, fty):
        t = self.p.tys[ty]
        f = self.p.tys[fty] if fty is not None else {"k": "?"}
        if kind == "IntToInt":
            if x.k == "int":
                b = t.get("b", 32)
                v = x.a[0]
                if t["k"] == "uint":
                    v &= (1 << b) - 1
                elif t["k"] == "int":
                    v &= (1 << b) - 1
                    if v >> (b - 1):
                        v -= 1 << b
                return Int(v)
            fb, tb = f.get("b", 32), t.get("b", 32)
            if f["k"] == "bool" or tb >= fb:
                if x.ty is None and x.k in ("sym", "fld"):
                    x.ty = fty
                return x
            r = mk("op", "trunc%d" % tb, x)
            r.ty = ty
            return r
        if kind == "IntToFloat":
            return Flt(x.a[0]) if x.k == "int" else mk("op", "i2f", x)
        if kind == "FloatToInt":
            r = mk("op", "f2i", x)
            r.ty = ty
            return r
        if kind == "FloatToFloat":
            return x
        if kind.startswith("pc:ReifyFnPointer") or kind.startswith("pc:ClosureFnPointer"):
            return x
        return x

    def strlen(self, s):
        c = str_const(s)
        if c is not None:
            return Int(len(c.encode()))
        if s.k == "str" and self.cur is not None and all(p.k in ("lit", "ch") for p in s.a[0]):
            from intrin import utf8len
            n = Int(0)
            for p in s.a[0]:
                n = add(n, Int(len(p.a[0].encode())) if p.k == "lit" else utf8len(self, self.cur, p.a[0]))
            return n
        t = mk("strlen", s)
        if t.ty is None:
            t.ty = self.usize()
        return t

    def usize(self):
        if not hasattr(self, "_us"):
            self._us = self.p.ty_by_d.get("usize")
        return self._us

    # ------------------------------------------------------------ running
    def push(self, st, fn, args, dest, ret, cont=None, sp=None):
        self.p.compile(fn)
        depth = len(st.frames)
        st.frames.append(Frame(fn, 0, dest, ret, cont, sp))
        for k in [k for k in st.mem if k[0] == "L" and k[1] == depth]:
            del st.mem[k]
        for k in [k for k in st.heads if k[0] >= depth]:
            del st.heads[k]
        for i, a in enumerate(args):
            st.mem[("L", depth, i + 1)] = a
        self.stats["inlined"][fn.n] = self.stats["inlined"].get(fn.n, 0) + 1

    def explore(self, states, on_return):
        """on_return(eng, st, value) -> iterable of follow-up states or None"""
        self.t0 = time.time()
        self.on_return = on_return
        stack = list(states)
        while stack:
            if self.shuffle is not None:
                i = self.shuffle.randrange(len(stack))
                stack[i], stack[-1] = stack[-1], stack[i]
            st = stack.pop()
            self.stats["states"] += 1
            if self.stats["states"] > self.max_states or time.time() - self.t0 > self.max_time:
                raise Budget("state/time budget exhausted (%d states, %.0fs)" % (self.stats["states"], time.time() - self.t0))
            try:
                succ = self.run(st)
            except Infeasible:
                succ = None
            if succ:
                stack.extend(succ)

    def goto(self, st, bb):
        """returns False if the state was seen before"""
        fr = st.frames[-1]
        fr.bb = bb
        if bb in fr.fn.heads:
            return self.at_head(st)
        if st.fresh_fork and bb in fr.fn.joins:
            st.fresh_fork = False
            return self.dedup(st)
        return True

    def run(self, st):
        p = self.p
        self.cur = st
        while True:
            fr = st.frames[-1]
            depth = len(st.frames) - 1
            ss, t = fr.fn.blocks[fr.bb]
            self.stats["steps"] += 1
            if self.max_steps is not None and self.stats["steps"] > self.max_steps:
                raise Budget("step budget exhausted")
            if (self.stats["steps"] & 0xfff) == 0 and time.time() - self.t0 > self.max_time:
                raise Budget("time budget exhausted")
            mem = st.mem
            for s in ss:
                k = s[0]
                if k == "=":
                    v = self.rvalue(st, depth, s[2])
                    pl = s[1]
                    if not pl[1]:
                        mem[("L", depth, pl[0])] = v
                    else:
                        c, pa = self.place(st, depth, pl)
                        self.store(st, c, pa, v, s[3])
                elif k == "dead":
                    mem.pop(("L", depth, s[1]), None)
                elif k == "live":
                    mem.pop(("L", depth, s[1]), None)
                elif k == "sd":
                    c, pa = self.place(st, depth, s[1])
                    old = self.load(st, c, pa)
                    ty = s[1][2]
                    if old.k == "agg":
                        self.store(st, c, pa, agg(ty, s[2], old.a[2]), s[3])
                    else:
                        self.store(st, c, pa, self.expand(old, ty, s[2]) or old, s[3])
            k = t[0]
            if k == "goto":
                if not self.goto(st, t[1]):
                    return None
            elif k == "drop":
                if not self.goto(st, t[2]):
                    return None
            elif k == "switch":
                r = self.switch(st, depth, t)
                if r is not None:
                    return r
            elif k == "call":
                r = self.call(st, depth, t)
                if r is not None:
                    return r
            elif k == "ret":
                r = self.ret(st)
                if r is not None:
                    return r
            elif k == "assert":
                if self.on_assert is not None:
                    r = self.on_assert(self, st, fr, t)
                    if r is not None:
                        return r
                c = self.op(st, depth, t[1])
                if self.decide(st, c) is (not t[2]):
                    self.panic(st, "assert:" + t[3], t[6])
                    return None
                if c.k in ("cmp", "not"):
                    self.assume(st, c, t[2])
                if not self.goto(st, t[5]):
                    return None
            elif k == "unreachable":
                return None
            else:
                return None

    def panic(self, st, what, sp):
        self.stats["paths"] += 1
        if self.on_panic is not None:
            self.on_panic(self, st, what, sp)

    def note(self, st, sp, what):
        fr = st.frames[-1]
        st.trace = (st.trace, fr.fn.short, sp, what)

    def switch(self, st, depth, t):
        v = self.op(st, depth, t[1])
        targets, other = t[2], t[3]
        if v.k == "int":
            for x, b in targets:
                if x == v.a[0] or (v.a[0] < 0 and x == v.a[0] % (1 << 8)) or (v.a[0] < 0 and (x - v.a[0]) in (1 << 8, 1 << 16, 1 << 32, 1 << 64, 1 << 128)):
                    return None if self.goto(st, b) else []
            return None if self.goto(st, other) else []
        boolish = v.k in ("cmp", "not", "and", "streq", "same", "fcmp", "mhas", "ovf") or \
            (t[4] is not None and self.p.tys[t[4]]["k"] == "bool")
        if boolish and len(targets) == 1 and targets[0][0] == 0:
            if v.k == "not" and v.a[0].k == "and" or v.k == "and":
                # split conjunctions so that facts stay atomic
                return self.switch_and(st, v, targets[0][1], other, t[5])
            a, b = self.split(st, v)
            out = []
            both = a is not None and b is not None
            for s, bb, w in ((a, other, 1), (b, targets[0][1], 0)):
                if s is None:
                    continue
                if both:
                    self.note(s, t[5], (v, w))
                if not both:
                    return None if self.goto(s, bb) else []
                if self.goto(s, bb):
                    out.append(s)
            return out
        # integer / discriminant switch
        cst, lv, sg = lv_split(v)
        cand = []
        rest = []
        for x, b in targets:
            if v.k == "disc" and v.a[0].k == "ordcmp" and x >= 128:
                x = x - 256
            elif v.ty is not None and x >= (1 << 127):
                x -= 1 << 128
            rest.append((x, x))
            cand.append((((x, x),), b, x))
        rest.sort()
        cand.append((iv_not(tuple(iv_norm([x for x, _ in rest]))), other, "else"))
        out = []
        for iv, b, w in cand:
            s2 = st.copy()
            if not self.restrict(s2, v, iv):
                continue
            out.append((s2, b, w))
        if len(out) == 1:
            # only one feasible branch
            st.facts = out[0][0].facts
            return None if self.goto(st, out[0][1]) else []
        res = []
        for s2, b, w in out:
            self.forked(s2)
            self.note(s2, t[5], (v, w))
            self.ordfact(s2, v, w)
            if self.goto(s2, b):
                res.append(s2)
        return res

    def ordfact(self, st, v, w):
        if v.k == "disc" and v.a[0].k == "ordcmp" and w != "else":
            x, y = v.a[0].a
            if w == 0:
                self.assume(st, eq(x, y), True)
            elif w in (-1, 255):
                self.assume(st, lt(x, y), True)
            elif w == 1:
                self.assume(st, lt(y, x), True)

    def switch_and(self, st, v, bfalse, btrue, sp):
        if v.k == "not":
            v, bfalse, btrue = v.a[0], btrue, bfalse
        atoms = []

        def flat(x):
            if x.k == "and":
                flat(x.a[0])
                flat(x.a[1])
            else:
                atoms.append(x)
        flat(v)
        out = []
        cur = st
        for a in atoms:
            if a.k == "not" and a.a[0].k == "and":
                # opaque disjunction
                t, f = self.split(cur, a)
            else:
                t, f = self.split(cur, a)
            if f is not None:
                self.note(f, sp, (a, 0))
                if self.goto(f, bfalse):
                    out.append(f)
            cur = t
            if cur is None:
                return out
        self.note(cur, sp, (v, 1))
        if self.goto(cur, btrue):
            out.append(cur)
        return out

    def ret(self, st):
        depth = len(st.frames) - 1
        v = st.mem.get(("L", depth, 0), UNDEF)
        if v is UNDEF:
            v = UNIT
        fr = st.frames.pop()
        return self.finish(st, fr, v, depth)

    def finish(self, st, fr, v, depth):
        for k in [k for k in st.heads if k[0] >= depth]:
            del st.heads[k]
        if fr.cont is not None:
            return fr.cont[0](self, st, fr, v, *fr.cont[1:])
        return self.resume(st, fr, v)

    def resume(self, st, fr, v):
        if not st.frames:
            self.stats["paths"] += 1
            r = self.on_return(self, st, v)
            return list(r) if r else []
        if fr.dest is not None:
            self.store(st, fr.dest[0], fr.dest[1], v, fr.sp)
        for h in self.after:
            h(self, st, fr, v)
        if fr.ret is None:
            return []
        if not self.goto(st, fr.ret):
            return []
        return None

    # ------------------------------------------------------------ calls
    def call(self, st, depth, t):
        fo, argo, dest, target, sp = t[1], t[2], t[3], t[4], t[5]
        args = [self.op(st, depth, a) for a in argo]
        fv = self.op(st, depth, fo)
        dc = self.place(st, depth, dest) + (dest[2],)
        argty = [self.p.op_ty(a) for a in argo]
        return self.invoke(st, fv, args, argty, dc, target, sp)

    def invoke(self, st, fv, args, argty, dc, target, sp):
        fn = None
        tp = None
        tys = self.p.tys
        if fv.k == "fndef":
            td = tys[fv.a[0]]
            tp = td["t"]
            if tp in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
                return self.call_closure(st, args, argty, dc, target, sp)
            if td["fn"] is not None:
                fn = self.p.fns[td["fn"]]
        elif fv.k == "fn":
            fn = self.p.fns[fv.a[0]]
            tp = fn.t
        elif fv.k == "agg" and fv.a[0] >= 0 and tys[fv.a[0]]["k"] == "closure":
            return self.call_closure(st, [fv, tup(*args)], [fv.a[0], None], dc, target, sp)
        else:
            return self.unknown(st, "indirect", args, argty, dc, target, sp)
        return self.call_fn(st, fn, tp, args, argty, dc, target, sp)

    def call_closure(self, st, args, argty, dc, target, sp):
        f = args[0]
        targs = args[1]
        n = None
        fty = argty[0]
        tys = self.p.tys
        # unwrap references by static type
        v = f
        t = tys[fty] if fty is not None else {"k": "?"}
        while t["k"] in ("ref", "ptr") or (t["k"] == "adt" and t.get("box")):
            inner = t["e"] if "e" in t else t["a"][0]
            nt = tys[inner]
            if nt["k"] in ("ref", "ptr"):
                v = self.loadref(st, v)
            t = nt
            fty = inner
        # v is now a closure value (by value) or a ref to it
        if targs.k == "agg":
            al = list(targs.a[2])
        else:
            al = [targs]
        if t["k"] == "closure":
            fn = self.p.fns[t["fn"]] if t["fn"] is not None else None
            if fn is None or fn.raw is None:
                return self.unknown(st, "closure", args, argty, dc, target, sp)
            self.p.compile(fn)
            bt = tys[fn.locals[1][0]]
            isref = v.k == "ref" or (v.k not in ("agg",))
            if bt["k"] == "ref":
                if v.k == "agg":
                    v = self.heap(st, v)
            else:
                if v.k == "ref":
                    v = self.loadref(st, v)
            return self.call_fn(st, fn, fn.t, [v] + al, [None] * (1 + len(al)), dc, target, sp, noevent=True)
        if t["k"] == "fndef":
            fn = self.p.fns[t["fn"]] if t["fn"] is not None else None
            return self.call_fn(st, fn, t["t"], al, [None] * len(al), dc, target, sp)
        n = 0
        while v.k == "ref" and n < 4:
            v = self.loadref(st, v)
            n += 1
        if v.k == "fn":
            fn = self.p.fns[v.a[0]]
            return self.call_fn(st, fn, fn.t, al, [None] * len(al), dc, target, sp)
        if v.k == "fndef":
            td = tys[v.a[0]]
            fn = self.p.fns[td["fn"]] if td["fn"] is not None else None
            return self.call_fn(st, fn, td["t"], al, [None] * len(al), dc, target, sp)
        if v.k == "agg" and v.a[0] >= 0 and tys[v.a[0]]["k"] == "closure":
            return self.call_closure(st, [v] + args[1:], [v.a[0]] + argty[1:], dc, target, sp)
        return self.unknown(st, "closure?", args, argty, dc, target, sp)

    def call_fn(self, st, fn, tp, args, argty, dc, target, sp, noevent=False):
        names = ()
        if fn is not None:
            names = (fn.n, fn.t, tp) if fn.t != tp else (fn.n, fn.t)
        elif tp is not None:
            names = (tp,)
        for h in self.on_call:
            r = h(self, st, fn, tp, args, sp)
            if r is not None:
                return self.deliver(st, r, dc, target, sp)
        hs = [self.handlers[n] for n in names if n in self.handlers]
        if fn is None or not fn.local:
            for n in self.nnames(fn, tp):
                h = self.itab.get(n)
                if h is not None:
                    hs.append(h)
        for h in hs:
            r = h(self, st, args, argty, (fn, tp, dc, target, sp))
            if r is NotImplemented:
                continue
            if r is PUSHED:
                return None
            return self.deliver(st, r, dc, target, sp)
        if fn is not None and fn.kind == "virtual" and args:
            g = self.devirt(st, fn, args[0])
            if g is not None:
                return self.call_fn(st, g, g.t, args, argty, dc, target, sp, noevent)
        if target is None and (fn is None or not fn.local):
            self.panic(st, tp or fn.n, sp)
            return []
        if fn is not None and fn.local and fn.n.endswith("as std::clone::Clone>::clone") and self.p.one_line(fn):
            return self.deliver(st, self.loadref(st, args[0]), dc, target, sp)      # derived: structural copy
        if fn is not None and fn.raw is not None and (fn.local or self.allow.match(fn.t)):
            cnt = sum(1 for f in st.frames if f.fn is fn)
            if cnt >= self.max_rec:
                self.stats["recursion_cut"][fn.n] = self.stats["recursion_cut"].get(fn.n, 0) + 1
                return []
            if len(st.frames) > 120:
                return []
            if self.on_hang is not None and cnt:
                last = [f for f in st.frames if f.fn is fn][-1].snap
                if last is not None and last[0] == st.nsym and len(last[1]) == len(args) and all(x is y for x, y in zip(last[1], args)) \
                        and all(c in last[2] and last[2][c] is v for c, v in st.mem.items() if c[0] != "L"):
                    self.on_hang(self, st, "recursion", sp)
                    return []
            self.push(st, fn, args, dc, target, None, sp)
            if self.on_hang is not None:
                st.frames[-1].snap = (st.nsym, tuple(args), {c: v for c, v in st.mem.items() if c[0] != "L"})
            return None
        m = OPREF.match(names[0]) if names else None
        if m and len(args) == 2:
            x, y = self.loadref(st, args[0]) if m.group(1) else args[0], self.loadref(st, args[1]) if m.group(4) else args[1]
            t = next((i for i, q in enumerate(self.p.tys) if q["d"] == m.group(2)), None)
            if t is not None:
                return self.deliver(st, self.binop(st, m.group(3), x, y, t), dc, target, sp)
        m = OPASSIGN.match(names[0]) if names else None
        if m and len(args) == 2 and args[0].k == "ref":
            t = next((i for i, q in enumerate(self.p.tys) if q["d"] == m.group(1)), None)
            if t is not None:
                v = self.binop(st, m.group(2), self.loadref(st, args[0]), self.loadref(st, args[1]) if m.group(3) else args[1], t)
                self.storeref(st, args[0], v, sp)
                return self.deliver(st, UNIT, dc, target, sp)
        return self.unknown(st, fn.t if fn is not None else tp, args, argty, dc, target, sp)

    def devirt(self, st, fn, recv):
        """the method a dyn call reaches, from the type of the value behind the reference"""
        v = recv
        while v.k == "ref":
            v = self.loadref(st, v)
        if v.k != "agg" or v.a[0] < 0:
            return None
        t = self.p.tys[v.a[0]]
        if t["k"] != "adt":
            return None
        return self.p.impls_of(fn.t).get(t["n"])

    def nnames(self, fn, tp):
        k = (fn.t if fn is not None else None, tp)
        r = self._nn.get(k)
        if r is None:
            r = []
            for x in k:
                if x is not None:
                    n = self.norm(x)
                    if n not in r:
                        r.append(n)
            self._nn[k] = r
        return r

    _nn = {}

    def run_fn(self, st, fn, args, ctx, post=None):
        """call a local function from a handler; post(value)->value"""
        cont = None
        if post is not None:
            def k(eng, s, fr, v):
                return eng.resume(s, fr, post(v))
            cont = (k,)
        if sum(1 for f in st.frames if f.fn is fn) >= self.max_rec:
            self.stats["recursion_cut"][fn.n] = self.stats["recursion_cut"].get(fn.n, 0) + 1
            return None
        self.push(st, fn, args, ctx[2], ctx[3], cont, ctx[4])
        return PUSHED

    def access(self, st, base, i, sp):
        """an element of a list is about to be read; hooks may fork"""
        sts = [st]
        for h in self.on_access:
            sts = [x for s in sts for x in h(self, s, base, i, sp)]
        return sts

    def bound(self, st, c, what, sp, base, idx):
        d = self.decide(st, c)
        if d is True:
            return True
        if d is False:
            self.panic(st, "bounds:" + what, sp)
            return False
        if self.on_index is not None:
            self.on_index(self, st, c, what, sp, base, idx)
        self.assume(st, c, True)
        return True

    def deliver(self, st, r, dc, target, sp):
        """r: value | list of (state, value) | None for diverged"""
        if r is None:
            return []
        if isinstance(r, T):
            self.store(st, dc[0], dc[1], r, sp)
            if target is None:
                self.panic(st, "diverge", sp)
                return []
            if not self.goto(st, target):
                return []
            return None
        out = []
        if len(r) == 1 and r[0][0] is st:
            if r[0][1] is PUSHED:
                return None
            return self.deliver(st, r[0][1], dc, target, sp)
        for s, v in r:
            if v is PUSHED:
                out.append(s)
                continue
            self.store(s, dc[0], dc[1], v, sp)
            if target is not None and self.goto(s, target):
                out.append(s)
        return out

    def snap(self, st, v, d=0):
        """value with references replaced by pointee snapshots"""
        if v.k == "ref" and d < 4:
            return self.snap(st, self.loadref(st, v), d + 1)
        if v.k == "agg" and d < 4:
            return agg(v.a[0], v.a[1], [self.snap(st, x, d + 1) for x in v.a[2]])
        return v

    def unknown(self, st, name, args, argty, dc, target, sp):
        self.stats["unknown"][name] = self.stats["unknown"].get(name, 0) + 1
        if target is None:
            self.panic(st, name or "?", sp)
            return []
        hav = False
        for a, ty in zip(args, argty):
            if ty is not None and self.p.tys[ty]["k"] in ("ref", "ptr") and self.p.tys[ty]["m"]:
                hav = True
                if a.k == "ref":
                    self.storeref(st, a, self.fresh(st, "havoc"), sp)
                else:
                    self.store(st, ("D", a), (), self.fresh(st, "havoc"), sp)
        dty = None
        if self.track_opaque:
            st.mon["opaque"] = mk("op1", mk("app", str(name)))
        if hav:
            v = self.fresh(st, "ret:" + str(name))
        else:
            UNKNOWN.add(str(name))
            v = mk("app", str(name), *[self.snap(st, a) for a in args])
        return self.deliver(st, v, dc, target, sp)

    # ------------------------------------------------------------ dedup/widen
    def roots(self, st):
        out = []
        for d, fr in enumerate(st.frames):
            if d == len(st.frames) - 1:
                live = fr.fn.live[fr.bb]
            else:
                r = st.frames[d + 1].ret
                live = fr.fn.live[r] if r is not None else ()
            for l in sorted(live):
                if ("L", d, l) in st.mem:
                    out.append(("L", d, l))
        return out

    def gc(self, st):
        """drop unreachable cells and facts; returns ordered reachable cells"""
        order = []
        seenc = set()
        seent = set()
        mem = st.mem
        work = self.roots(st)
        for c in work:
            seenc.add(c)
        tl = []
        for fr in st.frames:
            if fr.dest is not None:
                c = fr.dest[0]
                if c[0] != "L" and c not in seenc:
                    seenc.add(c)
                    work.append(c)
                elif c[0] == "L" and fr.dest[1] and c not in seenc:
                    seenc.add(c)
                    work.append(c)
                for e in fr.dest[1]:
                    if e[0] == "i":
                        tl.append(e[1])
            if fr.cont is not None:
                tl.extend(x for x in fr.cont if isinstance(x, T))
        tl.extend(st.mon[k] for k in sorted(st.mon))
        i = 0

        def visit(t0):
            stk = [t0]
            while stk:
                t = stk.pop()
                if t in seent:
                    continue
                seent.add(t)
                if t.k == "ref":
                    c = t.a[0]
                    if c not in seenc:
                        seenc.add(c)
                        work.append(c)
                    if t.a[1]:
                        try:
                            stk.append(self.load(st, c, t.a[1]))
                        except Exception:
                            pass
                elif t.k in DEREFABLE:
                    c = ("D", t)
                    if c in mem and c not in seenc:
                        seenc.add(c)
                        work.append(c)
                stk.extend(children(t))
        for t in tl:
            visit(t)
        while i < len(work):
            c = work[i]
            i += 1
            order.append(c)
            v = mem.get(c)
            if v is not None:
                visit(v)
            for x in c[1:]:
                if isinstance(x, T):
                    visit(x)
        for c in [c for c in mem if c not in seenc]:
            del mem[c]
        keep = {}
        for a, r in st.facts.items():
            if self.keep_fact(a, seent):
                keep[a] = r
        st.facts = keep
        return order, seent

    def keep_fact(self, a, seen):
        if a in seen:
            return True
        if a.k == "lin":
            return all(self.keep_fact(x, seen) for x, _ in a.a[1])
        if a.k == "len":
            return self.keep_fact(a.a[0], seen)
        if a.k in ("sf", "disc"):
            return self.keep_fact(a.a[0], seen)
        if a.k in ("fld", "*"):
            return self.keep_fact(a.a[0], seen)
        if a.k == "in":
            return True
        if a.k in ("fcmp", "op", "fop", "same", "and", "streq", "app", "mhas", "mget", "not", "cmp", "strlen"):
            return all(self.keep_fact(x, seen) for x in children(a) if x.k not in LEAF)
        if a.k == "str":
            return all(self.keep_fact(x, seen) for x in children(a))
        if a.k in LEAF or a.k in ("S", "ch"):
            return True if a.k in LEAF else self.keep_fact(a.a[0], seen)
        return False

    def key(self, st):
        order, seen = self.gc(st)
        # canonical renaming of fresh symbols by first occurrence
        m = {}
        done = set()

        def walk(t):
            stk = [t]
            while stk:
                x = stk.pop()
                if x in done:
                    continue
                done.add(x)
                if x.k == "sym":
                    m[x] = mk("sym", "~", len(m))
                    m[x].ty = None
                    continue
                stk.extend(reversed(list(children(x))))
        for c in order:
            for x in c[1:]:
                if isinstance(x, T):
                    walk(x)
            v = st.mem.get(c)
            if v is not None:
                walk(v)
        for k in sorted(st.mon):
            walk(st.mon[k])
        for fr in st.frames:
            if fr.cont:
                for x in fr.cont:
                    if isinstance(x, T):
                        walk(x)
        memo = {}

        def ren(t):
            r = memo.get(t)
            if r is not None:
                return r
            r = m.get(t)
            if r is None:
                r = rebuild(t, ren)
            memo[t] = r
            return r
        cells = tuple((_rt(c, ren), ren(st.mem[c])) for c in order if c in st.mem)
        facts = frozenset((ren(a), r) for a, r in st.facts.items())
        frames = tuple((f.fn.id, f.bb if i == len(st.frames) - 1 else f.ret,
                        _rt(f.dest, ren) if f.dest is not None else None,
                        tuple(ren(x) if isinstance(x, T) else id(x) for x in f.cont) if f.cont else None)
                       for i, f in enumerate(st.frames))
        mon = tuple((k, ren(st.mon[k])) for k in sorted(st.mon))
        return (frames, frozenset(cells), facts, mon, self.root_key)

    def dedup(self, st):
        k = self.key(st)
        if k in self.visited:
            self.stats["dedup"] += 1
            return False
        self.visited.add(k)
        return True

    def at_head(self, st):
        fr = st.frames[-1]
        return self.loop_head(st, (len(st.frames) - 1, fr.bb))

    def loop_head(self, st, hk):
        prev = st.heads.get(hk)
        self.stats["heads"] += 1
        if self.unroll and not st.fresh_fork and self.on_head is None:
            # no choice was made since the last loop head: nothing to compare with
            for k in [k for k in st.heads if k[0] > hk[0]]:
                del st.heads[k]
            n = st.heads.get(hk, 0) + 1
            st.heads[hk] = n
            if n > self.unroll + 1:
                self.stats["cut"] = self.stats.get("cut", 0) + 1
                return False
            return True
        self.gc(st)
        if self.on_head is not None:
            self.on_head(self, st, hk)
        if self.unroll:
            for k in [k for k in st.heads if k[0] > hk[0]]:
                del st.heads[k]
            n = st.heads.get(hk, 0) + 1
            if self.on_hang is not None and hk[0] >= 0:
                sk = hk + ("snap",)
                old, times = st.heads.get(sk, (None, 0))
                g = self.no_step(old, st, hk) if old is not None else None
                if g == 0 or g == 1 and times >= 40:
                    self.on_hang(self, st, "loop", None)
                    return False
                st.heads[sk] = ((st.nsym, dict(st.mem)), times + 1 if g == 1 else 0)
                if g == 1:
                    n -= 1          # growing only: follow it on
            st.heads[hk] = n
            st.fresh_fork = False
            if n > self.unroll + 1:
                self.stats["cut"] = self.stats.get("cut", 0) + 1
                return False
            return self.dedup(st)
        if self.join_heads:
            return self.join_head(st, hk)
        sk = self.skel(st)
        tab = dict(prev) if prev is not None else {}
        old = tab.get(sk)
        n = 1
        if old is not None:
            n, forks, pmem, pmon, pfacts = old
            if st.forks != forks or n > 4000:
                if n >= self.widen_delay:
                    self.widen(st, pmem, pmon, pfacts)
                n += 1
        # inner loop heads restart
        for k in [k for k in st.heads if k[0] > hk[0]]:
            del st.heads[k]
        ok = self.dedup(st)
        tab[sk] = (n, st.forks, dict(st.mem), dict(st.mon), dict(st.facts))
        st.heads[hk] = tab
        st.fresh_fork = False
        return ok

    def no_step(self, old, st, hk):
        """compare the state at this loop head with the one at the visit before"""
        n, mem = old
        if n != st.nsym or len(mem) != len(st.mem):
            return None
        r = 0
        for c, v in st.mem.items():
            g = grown(mem[c], v) if c in mem else None
            if g is None:
                return None
            r |= g
        return r

    def canon(self, st):
        """rename the symbols of a state by order of first occurrence"""
        order, seen = self.gc(st)
        m = {}
        cnt = {}
        done = set()

        def walk(t):
            stk = [t]
            while stk:
                x = stk.pop()
                if x in done:
                    continue
                done.add(x)
                if x.k == "sym":
                    i = cnt[x.a[0]] = cnt.get(x.a[0], -1) + 1
                    y = mk("sym", x.a[0], ("c", i, x.ty))
                    y.ty = x.ty
                    m[x] = y
                    continue
                stk.extend(reversed(list(children(x))))
        for c in order:
            for x in c[1:]:
                if isinstance(x, T):
                    walk(x)
            v = st.mem.get(c)
            if v is not None:
                walk(v)
        for k in sorted(st.mon):
            walk(st.mon[k])
        for fr in st.frames:
            if fr.cont:
                for x in fr.cont:
                    if isinstance(x, T):
                        walk(x)
        memo = {}

        def ren(t):
            r = memo.get(t)
            if r is not None:
                return r
            r = m.get(t)
            if r is None:
                r = rebuild(t, ren)
            memo[t] = r
            return r
        st.mem = {_rt(c, ren): ren(v) for c, v in st.mem.items()}
        st.mon = {k: ren(v) for k, v in st.mon.items()}
        st.facts = {ren(a): r for a, r in st.facts.items()}
        for fr in st.frames:
            if fr.dest is not None:
                fr.dest = _rt(fr.dest, ren)
            if fr.cont:
                fr.cont = tuple(ren(x) if isinstance(x, T) else x for x in fr.cont)

    def join_head(self, st, hk):
        """one accumulated state per calling context and shape"""
        self.canon(st)
        ctx = tuple((f.fn.id, f.bb if i == len(st.frames) - 1 else f.ret, f.dest, f.cont) for i, f in enumerate(st.frames))
        key = (ctx, hk, self.skel(st), self.root_key)
        acc = self.acc.get(key)
        st.fresh_fork = False
        if acc is None:
            self.acc[key] = (dict(st.mem), dict(st.mon), dict(st.facts))
            return True
        pmem, pmon, pfacts = acc
        if pmem == st.mem and pmon == st.mon:
            facts = self.join_fact_maps(pfacts, st.facts)
            if facts == pfacts:
                self.stats["dedup"] += 1
                return False
            st.facts = facts
        else:
            nf = dict(st.facts)
            orig = st.copy()
            n = self.parted.get(key, 0)
            if self.widen(st, pmem, pmon, pfacts) or n:
                self.parted[key] = n + 1
                if n < 10:
                    self.diverged.append(orig)
            gen = {f: r for f, r in st.facts.items() if nf.get(f) is not r}
            st.facts = self.join_fact_maps(pfacts, nf)
            st.facts.update(gen)
            self.canon(st)
            # a value that could not be matched keeps its own accumulated state
            key2 = (ctx, hk, self.skel(st), self.root_key)
            acc2 = self.acc.get(key2)
            if acc2 is not None and acc2[0] == st.mem and acc2[1] == st.mon:
                facts = self.join_fact_maps(acc2[2], st.facts)
                if facts == acc2[2]:
                    self.stats["dedup"] += 1
                    return False
                st.facts = facts
            key = key2
        self.acc[key] = (dict(st.mem), dict(st.mon), dict(st.facts))
        if not self.dedup(st):
            return False
        return True

    def join_fact_maps(self, a, b):
        out = {}
        for f, r in b.items():
            q = a.get(f)
            if q is None:
                continue
            if q == r:
                out[f] = r
            elif f.k == "sf":
                if q[0] == "ne" and r[0] == "ne":
                    x = q[1] & r[1]
                    if x:
                        out[f] = ("ne", x)
            elif f.k in ("lin", "len", "sym"):
                lo = q[0][0] if q[0][0] <= r[0][0] else max(x for x in (-INF, 0, 1) if x <= r[0][0])
                hi = q[-1][1] if q[-1][1] >= r[-1][1] else min(x for x in (INF, 0, -1) if x >= r[-1][1])
                if lo != -INF or hi != INF:
                    out[f] = ((lo, hi),)
            else:
                u = iv_not(iv_and(iv_not(q), iv_not(r)))
                if u != FULL:
                    out[f] = u
        return out

    def skel(self, st):
        """discrete part of a state: states are generalised only against states of the same shape"""
        out = []
        for c, v in st.mem.items():
            if c[0] == "L":
                out.append((c, self.shape(v, 0)))
            elif c[0] == "H":
                out.append((c, self.shape(v, 0)))
        return (frozenset(out), tuple((k, self.shape(st.mon[k], 0)) for k in sorted(st.mon)))

    def shape(self, t, d):
        k = t.k
        if k == "int":
            return t.a[0] if t.a[0] in (0, 1) else "i"
        if k == "lin":
            return "i"
        if k == "sym":
            return "i" if t.a[0] == "w" else "s" if t.a[0] == "X" else "l" if t.a[0] == "L" else "?"
        if k == "str":
            return "s"
        if k == "S":
            return "s"
        if k == "list":
            return "l"
        if k == "map":
            return "m"
        if k in ("agg", "tok", "q", "stk", "fr") and d < 6:
            return (k,) + tuple(x if not isinstance(x, (T, tuple)) else self.shape(x, d + 1) if isinstance(x, T) else tuple(self.shape(y, d + 1) for y in x if isinstance(y, T)) for x in t.a)
        if k == "ref":
            return ("r", t.a[0][0])
        if t.ty is not None and t.ty == self.p.ty_string:
            return "s"
        return k

    def widen(self, st, pmem, pmon, pfacts):
        groups = {}
        ints = []
        strs = []
        pairs = []
        memo = {}
        same = []

        def intval(t):
            return t.k in ("int", "lin") or t.k == "sym" and t.a[0] == "w"

        def gen(o, n, d=0):
            if o is n:
                same.append(n)
                return n
            key = (o, n)
            if key in memo:
                return memo[key]
            r = gen1(o, n, d)
            memo[key] = r
            return r

        def gen1(o, n, d):
            if intval(n) or intval(o):
                dl = sub(n, o)
                if o.k == "int" and n.k == "int" and (o.a[0] in (0, 1) and n.a[0] in (0, 1) or abs(dl.a[0]) > 3):
                    return n        # flags and enumerations
                if dl.k != "int" and not (has_w(o) or has_w(n)):
                    return n
                for o0, n0, w in ints:
                    k = sub(o, o0)
                    if k.k == "int" and k is sub(n, n0):
                        return add(w, k)
                w = self.fresh(st, "w")
                if n.k == "int":
                    w.ty = self.usize()
                else:
                    cands = [a.ty for a, _ in (n.a[1] if n.k == "lin" else ((n, 1),))]
                    w.ty = cands[0] if cands else None
                ints.append((o, n, w))
                return w
            gn = [t.a[0] if t.k == "sym" else None for t in (o, n)]
            if o.k == "sym" and n.k == "sym" and gn[0] == gn[1] and gn[0] not in ("X", "L", "M", "h", "w"):
                g = self.fresh(st, gn[1], n.ty)
                pairs.append((o, n, g))
                return g
            if (o.k == "sym" or n.k == "sym") and not ("X" in gn or "L" in gn or "M" in gn):
                return n
            if "L" in gn or o.k == "list" or n.k == "list":
                ob, ou, oi = list_parts(o)
                nb, nu, ni = list_parts(n)
                if o.k == "list" and n.k == "list" and len(oi) == len(ni) and len(ou) == len(nu) and ob is nb:
                    return rebuild2(o, n, d)
                if n.k == "list" and nb is not None and not nu and len(ni) == 0:
                    return n
                g = groups.get((o, n))
                if g is None:
                    g = self.fresh(st, "L")
                    groups[(o, n)] = g
                    pairs.append((o, n, g))
                return g
            if "X" in gn or o.k == "str" or n.k == "str":
                if o.k == "str" and n.k == "str" and len(o.a[0]) == len(n.a[0]) and all(x.k == y.k and (x.k != "lit" or x is y) for x, y in zip(o.a[0], n.a[0])):
                    return rebuild2(o, n, d)
                g = groups.get((o, n))
                if g is None:
                    po_, pn_ = str_parts(o), str_parts(n)
                    for o2, n2, x2 in strs:
                        p2, q2 = str_parts(o2), str_parts(n2)
                        if len(p2) < len(po_) and len(q2) < len(pn_):
                            k = len(pn_) - len(q2)
                            if len(po_) - len(p2) == k and pn_[k:] == q2 and po_[k:] == p2 and pn_[:k] == po_[:k]:
                                return mk_str(pn_[:k] + (mk("S", x2),))
                    g = self.fresh(st, "X")
                    groups[(o, n)] = g
                    strs.append((o, n, g))
                    pairs.append((o, n, g))
                return g
            if "M" in gn or o.k == "map" or n.k == "map":
                if o.k == "map" and n.k == "map" and len(o.a[1]) == len(n.a[1]) and o.a[0] is n.a[0]:
                    return rebuild2(o, n, d)
                g = groups.get((o, n))
                if g is None:
                    g = self.fresh(st, "M")
                    groups[(o, n)] = g
                    pairs.append((o, n, g))
                return g
            if o.k == n.k and len(o.a) == len(n.a):
                if o.k == "agg" and (o.a[0] != n.a[0] or o.a[1] != n.a[1]):
                    return n
                return rebuild2(o, n, d)
            if term_depth(n) > 12:
                g = groups.get(n)
                if g is None:
                    g = self.fresh(st, "deep")
                    groups[n] = g
                return g
            return n

        def rebuild2(o, n, d):
            if d > 60:
                return n
            if n.k in LEAF or n.k in ("in", "sym"):
                return n
            bad = []

            def z(x, y):
                if isinstance(y, T):
                    if isinstance(x, T):
                        return gen(x, y, d + 1)
                    return y
                if isinstance(y, tuple) and isinstance(x, tuple) and len(x) == len(y):
                    return tuple(z(p, q) for p, q in zip(x, y))
                return y
            na = tuple(z(x, y) for x, y in zip(o.a, n.a))
            if na == n.a:
                return n
            if n.k == "cmp":
                return cmp_(na[0], na[1])
            if n.k == "str":
                return mk_str(na[0])
            if n.k == "len":
                return list_len(na[0])
            if n.k == "not":
                return not_(na[0])
            if n.k == "list":
                return mk_list(*na)
            r = mk(n.k, *na)
            r.ty = n.ty
            return r
        ofacts = dict(st.facts)
        ofacts_mem = [(c, v) for c, v in st.mem.items() if pmem.get(c) is v] + [(k, v) for k, v in st.mon.items() if pmon.get(k) is v]
        newmem = {}
        for c, v in sorted(st.mem.items(), key=lambda x: len(x[1].a[0]) if x[1].k == "str" else 0):
            o = pmem.get(c)
            if o is not None and o is not v:
                newmem[c] = gen(o, v)
        newmon = {}
        for k, v in st.mon.items():
            o = pmon.get(k)
            if o is not None and o is not v:
                newmon[k] = gen(o, v)
        st.mem.update(newmem)
        st.mon.update(newmon)
        for o, n, g in pairs:
            for f, r in ofacts.items():
                if n in subterms(f, set()):
                    r2 = pfacts.get(subst(f, {n: o}))
                    if r2 is not None:
                        j = self.join_fact_maps({f: r2}, {f: r})
                        if f in j:
                            st.facts[subst(f, {n: g})] = j[f]
        if ints:
            self.join_facts(st, ints, pfacts, ofacts)
        # one generalised text or list of the accumulated state has become two different ones
        seen = {}
        for o, n in groups:
            if isinstance(o, T) and o.k == "sym":
                if seen.setdefault(o, n) is not n:
                    return True
        if seen:
            left = set()
            for t in same:
                subterms(t, left)
            for c, v in ofacts_mem:
                subterms(v, left)
            for o in seen:
                if o in left:
                    return True
        return False

    def join_facts(self, st, ints, pfacts, nfacts):
        """carry over what holds of a generalised integer both at the previous visit and now"""
        class F:
            pass
        po, pn = F(), F()
        po.facts, pn.facts = pfacts, nfacts
        lens = {x for a in nfacts for x in ([a] if a.k == "len" else [y for y, _ in a.a[1] if y.k == "len"] if a.k == "lin" else [])}

        def put(term, a, b):
            if not a or not b:
                return
            lo = a[0][0] if a[0][0] <= b[0][0] else max([x for x in (-INF, 0, 1) if x <= b[0][0]])
            hi = a[-1][1] if a[-1][1] >= b[-1][1] else min([x for x in (INF, 0, -1) if x >= b[-1][1]])
            if lo == -INF and hi == INF:
                return
            cst, lv, s = lv_split(term)
            if lv is None:
                return
            self.restrict(st, term, ((lo, hi),))
        for o, n, w in ints:
            put(w, self.rng0(po, o), self.rng0(pn, n))
            for l in lens:
                put(sub(l, w), self.rng0(po, sub(l, o)), self.rng0(pn, sub(l, n)))
            for f, r in nfacts.items():
                if f.k == "app" and len(f.a) == 2 and f.a[1].k == "elem":
                    x = f.a[1]
                    k = sub(x.a[1], n)
                    if k.k == "int" and pfacts.get(mk("app", f.a[0], mk("elem", x.a[0], addc(o, k.a[0])))) == r:
                        st.facts[mk("app", f.a[0], mk("elem", x.a[0], addc(w, k.a[0])))] = r
                if f.k == "elem":
                    k = sub(f.a[1], n)
                    if k.k == "int":
                        r2 = pfacts.get(mk("elem", f.a[0], addc(o, k.a[0])))
                        if r2 is not None:
                            u = iv_not(iv_and(iv_not(r), iv_not(r2)))
                            g = mk("elem", f.a[0], addc(w, k.a[0]))
                            g.ty = f.ty
                            st.facts[g] = u

    def rng0(self, st, t):
        """interval of a linear term"""
        if t.k == "int":
            return ((t.a[0], t.a[0]),)
        cst, lv, s = lv_split(t)
        r = self.rng(st, lv)
        if s > 0:
            return tuple((l + cst, h + cst) for l, h in r)
        return tuple(sorted((cst - h, cst - l) for l, h in r))


def has_w(t):
    return any(x.k == "sym" and x.a[0] == "w" for x in ([t] if t.k == "sym" else [y for y, _ in t.a[1]] if t.k == "lin" else []))


_depth = {}


def term_depth(t):
    r = _depth.get(t)
    if r is None:
        r = 1 + max([term_depth(x) for x in children(t)] or [0])
        _depth[t] = r
    return r


def iv_norm(vs):
    out = []
    for x in sorted(vs):
        if out and out[-1][1] + 1 == x:
            out[-1] = (out[-1][0], x)
        else:
            out.append((x, x))
    return tuple(out)


def _rt(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_rt(y, f) for y in x)
    return x


DEREFABLE = ("in", "sym", "fld", "elem", "*", "mget", "app")
PUSHED = object()
from prog import TRANSPARENT as TRANSP
