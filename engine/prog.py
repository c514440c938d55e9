"""Loads the MIR dump and pre-compiles function bodies."""
import json
import re
from terms import *

TRANSPARENT = {
    "std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling",
    "std::ptr::Unique", "std::ptr::NonNull", "core::mem::maybe_dangling::MaybeDangling",
    "std::ptr::unique::Unique", "std::cell::UnsafeCell", "std::num::Wrapping",
}


class Fn:
    __slots__ = ("oneline", "id", "n", "t", "crate", "kind", "local", "targs", "span", "nargs", "raw",
                 "blocks", "locals", "heads", "joins", "live", "compiled", "spread", "short")


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d["files"]
        self.tys = d["tys"]
        self.statics = d["statics"]
        self.impls = d["impls"]
        self.poly = d["poly"]
        self.fns = []
        self.by_name = {}
        for f in d["fns"]:
            g = Fn()
            g.id, g.n, g.t, g.crate, g.kind, g.local = f["id"], f["n"], f["t"], f["crate"], f["kind"], f["local"]
            g.targs, g.span = f["a"], f["span"]
            g.nargs = f.get("nargs")
            g.raw = f if "bbs" in f else None
            g.compiled = False
            g.short = g.n.split("::")[-1]
            self.fns.append(g)
            self.by_name.setdefault(g.n, g)
            self.by_name.setdefault(g.t, g)
        self.ty_by_d = {}
        for i, t in enumerate(self.tys):
            self.ty_by_d.setdefault(t["d"], i)
        self.roots = d["roots"]
        self.ty_string = next((i for i, t in enumerate(self.tys) if t["k"] == "adt" and t["n"].split("::")[-1] == "String"), None)
        self._statval = {}

    # ---- types
    def impls_of(self, method):
        """type name -> function that implements the trait method for it"""
        c = self.__dict__.setdefault("_impls", {})
        if method not in c:
            tr, _, m = method.rpartition("::")
            d = c[method] = {}
            for f in self.fns:
                if f.raw is not None and f.n.startswith("<") and f.n.endswith(" as %s>::%s" % (tr, m)):
                    d[re.sub(r"<[^<>]*>", "", f.n[1:-len(" as %s>::%s" % (tr, m))])] = f
        return c[method]

    def adt(self, name, nargs=None):
        """type ids of ADTs whose def path ends with name"""
        return [i for i, t in enumerate(self.tys) if t["k"] == "adt" and (t["n"] == name or t["n"].endswith("::" + name))]

    def fld(self, ty, name, var=0):
        for i, (n, _) in enumerate(self.tys[ty]["v"][var]["f"]):
            if n == name:
                return i
        raise KeyError("%s has no field %s" % (self.tys[ty]["d"], name))

    def variant(self, ty, name):
        for i, v in enumerate(self.tys[ty]["v"]):
            if v["n"] == name:
                return i
        raise KeyError("%s has no variant %s" % (self.tys[ty]["d"], name))

    def line(self, sp):
        return "%s:%d" % (self.files[sp[0]], sp[1])

    # ---- constants
    def const(self, ty, v):
        k = v[0]
        if k == "i" or k == "ch":
            t = Int(int(v[1]))
            return t
        if k == "b":
            return Bool(v[1])
        if k == "f":
            return Flt(float(v[1]))
        if k == "s":
            return kref(Lit(v[1]))
        if k == "zst":
            t = self.tys[ty]
            if t["k"] == "fndef":
                return mk("fndef", ty)
            if t["k"] == "closure":
                return agg(ty, 0, ())
            if t["k"] == "tuple":
                return tup()
            if t["k"] == "adt":
                return agg(ty, 0, [self.const(ft, ["zst"]) for _, ft in t["v"][0]["f"]] if t["v"] else [])
            if t["k"] == "array":
                return EMPTY
            return mk("zst", ty)
        if k == "t":
            fs = self.tys[ty].get("f") if ty is not None else None
            return tup(*[self.const(fs[i] if fs else None, x) for i, x in enumerate(v[1])])
        if k == "adt":
            d = self.tys[v[1]]
            fs = d["v"][v[2]]["f"]
            vals = [self.const(fs[i][1], x) for i, x in enumerate(v[3])]
            if d["n"] in TRANSPARENT and vals:
                return vals[0]
            # empty containers encoded in constants
            if d["n"] == "std::vec::Vec":
                return EMPTY
            if d["n"] == "std::string::String":
                return Lit("")
            return agg(v[1], v[2], vals)
        if k == "r":
            e = self.tys[ty].get("e") if ty is not None else None
            return kref(self.const(e, v[1]))
        if k == "rslice":
            e = self.tys[ty].get("e") if ty is not None else None
            e = self.tys[e].get("e") if e is not None else None
            return kref(mk("list", None, (), tuple(self.const(e, x) for x in v[1])))
        if k == "arr":
            e = self.tys[ty].get("e") if ty is not None else None
            return mk("list", None, (), tuple(self.const(e, x) for x in v[1]))
        if k == "bytes":
            return mk("list", None, (), tuple(Int(x) for x in v[1]))
        if k == "rbytes":
            return kref(mk("list", None, (), tuple(Int(x) for x in v[1])))
        if k == "static":
            return mk("ref", ("S", v[1]), ())
        if k == "fnptr":
            return mk("fn", v[1])
        return mk("kconst", ty, json.dumps(v))

    def static_val(self, i):
        if i not in self._statval:
            s = self.statics[i]
            self._statval[i] = self.const(s["ty"], s["v"])
        return self._statval[i]

    def one_line(self, f):
        """the whole body of f has the source position of one line (a derived implementation)"""
        r = f.oneline if hasattr(f, "oneline") else None
        if r is None:
            f = self.compile(f)
            ls = set()
            for ss, t in f.blocks:
                for x in ss:
                    if x[0] in ("=", "sd"):
                        ls.add(tuple(x[3][:2]) if x[3] else None)
                if t[0] == "call":
                    ls.add(tuple(t[5][:2]) if t[5] else None)
            sp = f.span
            r = f.oneline = len(ls) <= 1
        return r

    # ---- compilation
    def compile(self, f):
        if f.compiled:
            return f
        f.compiled = True
        raw = f.raw
        f.locals = raw["locals"]
        f.spread = raw["spread"]
        f.blocks = []
        for b in raw["bbs"]:
            ss = [self.c_stmt(f, s) for s in b["s"]]
            f.blocks.append(([s for s in ss if s is not None], self.c_term(f, b["t"])))
        self.cfg(f)
        f.raw = True
        return f

    def c_place(self, f, p):
        l = p[0]
        ty = f.locals[l][0]
        proj = []
        for e in p[1:]:
            t = self.tys[ty] if ty is not None else {"k": "?"}
            if e == "*":
                if t["k"] == "adt" and t.get("box"):
                    ty = t["a"][0]
                else:
                    ty = t.get("e")
                proj.append("*")
            elif e[0] == "f":
                skip = False
                if t["k"] == "adt" and (t["n"] in TRANSPARENT or t.get("box")):
                    skip = True
                if t["k"] == "adt" and t["ak"] == "union":
                    skip = True
                if not skip:
                    proj.append(("f", e[1], ty))
                ty = e[2]
            elif e[0] == "d":
                proj.append(("d", e[1], ty))
            elif e[0] == "i":
                proj.append(("i", e[1]))
                ty = t.get("e")
            elif e[0] == "c":
                proj.append(("c", e[1], e[3]))
                ty = t.get("e")
            elif e[0] == "s":
                proj.append(("s", e[1], e[2], e[3]))
            elif e[0] == "o":
                ty = e[1]
        return (l, tuple(proj), ty)

    def c_op(self, f, o):
        if o[0] in ("c", "m"):
            return (0, self.c_place(f, o[1]), o[0] == "m")
        if o[0] == "k":
            return (1, self.const(o[1], o[2]), o[1])
        return (1, FALSE, None)      # runtime checks flags: off

    def op_ty(self, o):
        return o[1][2] if o[0] == 0 else o[2]

    def c_rv(self, f, r):
        k = r[0]
        if k == "use":
            return ("use", self.c_op(f, r[1]))
        if k in ("ref", "addr"):
            return ("ref", self.c_place(f, r[-1]))
        if k == "agg":
            ops = tuple(self.c_op(f, x) for x in r[3])
            return ("agg", r[1], r[2], ops, r[4] if len(r) > 4 else 0, r[5] if len(r) > 5 else None)
        if k in ("bin", "cbin"):
            x, y = self.c_op(f, r[2]), self.c_op(f, r[3])
            return (k, r[1], x, y, self.op_ty(x))
        if k == "un":
            x = self.c_op(f, r[2])
            return ("un", r[1], x, self.op_ty(x))
        if k == "cast":
            x = self.c_op(f, r[2])
            return ("cast", r[1], x, r[3], self.op_ty(x))
        if k == "disc":
            return ("disc", self.c_place(f, r[1]))
        if k == "len":
            return ("len", self.c_place(f, r[1]))
        if k == "rep":
            return ("rep", self.c_op(f, r[1]), r[2])
        return ("?", k)

    def c_stmt(self, f, s):
        if s[0] == "=":
            return ("=", self.c_place(f, s[1]), self.c_rv(f, s[2]), s[3])
        if s[0] == "dead":
            return ("dead", s[1])
        if s[0] == "live":
            return ("live", s[1])
        if s[0] == "sd":
            return ("sd", self.c_place(f, s[1]), s[2], s[3])
        if s[0] == "assume":
            return None
        return ("?", s[0])

    def c_term(self, f, t):
        k = t[0]
        if k == "goto":
            return ("goto", t[1])
        if k == "switch":
            return ("switch", self.c_op(f, t[1]), tuple((int(v), b) for v, b in t[2]), t[3], t[4], t[5])
        if k == "call":
            fo = self.c_op(f, t[1])
            return ("call", fo, tuple(self.c_op(f, x) for x in t[2]), self.c_place(f, t[3]), t[4], t[5])
        if k == "assert":
            ex = t[4]
            e2 = None
            if ex:
                e2 = (ex[0],) + tuple(self.c_op(f, x) for x in ex[1:])
            return ("assert", self.c_op(f, t[1]), t[2], t[3], e2, t[5], t[6])
        if k == "drop":
            return ("drop", self.c_place(f, t[1]), t[2])
        return (k,)

    def succs(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        if k == "drop":
            return [t[2]]
        return []

    def cfg(self, f):
        n = len(f.blocks)
        succ = [self.succs(b[1]) for b in f.blocks]
        heads = set()
        color = [0] * n
        st = [(0, iter(succ[0]))]
        color[0] = 1
        npred = [0] * n
        reach = {0}
        while st:
            b, it = st[-1]
            for s in it:
                npred[s] += 1
                if color[s] == 1:
                    heads.add(s)
                elif color[s] == 0:
                    color[s] = 1
                    reach.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                color[b] = 2
                st.pop()
        f.heads = heads
        f.joins = {b for b in range(n) if npred[b] > 1}
        # liveness (locals); address-taken locals are recovered by reachability
        use = [None] * n
        deff = [None] * n
        for b in range(n):
            u, d = set(), set()

            def rd_place(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def rd_op(o):
                if o[0] == 0:
                    rd_place(o[1])

            def wr(p):
                if p[1]:
                    rd_place(p)
                else:
                    d.add(p[0])

            def rd_rv(r):
                k = r[0]
                if k in ("use", "rep"):
                    rd_op(r[1])
                elif k in ("ref", "disc", "len"):
                    rd_place(r[1])
                elif k == "agg":
                    for o in r[3]:
                        rd_op(o)
                elif k in ("bin", "cbin"):
                    rd_op(r[2])
                    rd_op(r[3])
                elif k in ("un", "cast"):
                    rd_op(r[2])
            for s in f.blocks[b][0]:
                if s[0] == "=":
                    rd_rv(s[2])
                    wr(s[1])
                elif s[0] == "sd":
                    rd_place(s[1])
                elif s[0] == "dead":
                    d.add(s[1])
            t = f.blocks[b][1]
            if t[0] == "switch":
                rd_op(t[1])
            elif t[0] == "assert":
                rd_op(t[1])
            elif t[0] == "call":
                rd_op(t[1])
                for o in t[2]:
                    rd_op(o)
                wr(t[3])
            elif t[0] == "ret":
                if 0 not in d:
                    u.add(0)
            use[b], deff[b] = u, d
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in succ[b]:
                    o |= live[s]
                nw = use[b] | (o - deff[b])
                if nw != live[b]:
                    live[b] = nw
                    ch = True
        f.live = [frozenset(x) for x in live]
