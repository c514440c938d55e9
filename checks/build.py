"""construction of typed values from Python data, and the AST of a statement list"""
from terms import *
from sym import *
from common import Missing


class Types:
    def __init__(self, ck, which="lib"):
        self.ck, self.p = ck, ck.prog(which)

    def ty(self, name, nargs=None):
        t = self.p.adt(name, nargs)
        if len(t) != 1:
            raise Missing("type %s" % name)
        return t[0]

    def variants(self, t):
        return self.p.tys[t]["v"]

    def make(self, t, fields, variant=None):
        """t: type id; fields: dict by name, or list; every field must be given"""
        vs = self.variants(t)
        vi = 0
        if variant is not None:
            vi = [i for i, v in enumerate(vs) if v["n"] == variant]
            if not vi:
                raise Missing("variant %s of %s" % (variant, self.p.tys[t]["n"]))
            vi = vi[0]
        fs = vs[vi]["f"]
        if isinstance(fields, dict):
            if {f[0] for f in fs} != set(fields):
                raise Missing("fields of %s" % self.p.tys[t]["n"])
            fields = [fields[f[0]] for f in fs]
        elif len(fields) != len(fs):
            raise Missing("fields of %s" % self.p.tys[t]["n"])
        return agg(t, vi, fields)

    def field_ty(self, t, name, variant=0):
        for n, ft in self.variants(t)[variant]["f"]:
            if n == name:
                return ft
        raise Missing("field %s of %s" % (name, self.p.tys[t]["n"]))

    def index(self, t, name, variant=0):
        for i, (n, ft) in enumerate(self.variants(t)[variant]["f"]):
            if n == name:
                return i
        raise Missing("field %s of %s" % (name, self.p.tys[t]["n"]))

    def get(self, v, name):
        """field of a struct value by name"""
        if v.k == "agg":
            return v.a[2][self.index(v.a[0], name)]
        if v.ty is not None and self.p.tys[v.ty]["k"] == "adt":
            return mk("fld", v, None, self.index(v.ty, name))
        raise Missing("field %s" % name)

    def option(self, t, x):
        """t: the Option type"""
        return agg(t, 0, []) if x is None else agg(t, 1, [x])

    def variant_name(self, v):
        return self.variants(v.a[0])[v.a[1]]["n"]


def vec(xs):
    return mk("list", None, (), tuple(xs))


class AstMaker:
    """statements: ("node", name, port, attrs) ("edge", [(name, port)...], "><...", attrs) ("attr", target, attrs) ("sub", stmts)
    names, ports and values are terms; attrs are [(key term, value term)]"""

    def __init__(self, ck):
        T = self.T = Types(ck)
        self.graph, self.stmt = T.ty("ast::Graph"), T.ty("ast::Stmt")
        self.nodeid, self.alist = T.ty("ast::NodeId"), T.ty("ast::AttributeList")
        self.edge, self.node, self.attr = T.ty("ast::EdgeStmt"), T.ty("ast::NodeStmt"), T.ty("ast::AttrStmt")
        self.target, self.arrow, self.slist = T.ty("ast::AttrStmtTarget"), T.ty("ast::ArrowKind"), T.ty("ast::StmtList")
        self.optport = T.field_ty(self.nodeid, "port")

    def mk_id(self, name, port):
        return self.T.make(self.nodeid, {"name": name, "port": self.T.option(self.optport, port)})

    def mk_attrs(self, l):
        return self.T.make(self.alist, {"list": vec([tup(k, v) for k, v in l])})

    def mk_graph(self, stmts):
        return self.T.make(self.graph, {"name": Lit("g"), "list": self.T.make(self.slist, {"list": vec([self.mk_stmt(s) for s in stmts])})})

    def mk_stmt(self, s):
        T = self.T
        if s[0] == "node":
            x = T.make(self.node, {"id": self.mk_id(s[1], s[2]), "list": self.mk_attrs(s[3])})
            return T.make(self.stmt, [x], "Node")
        if s[0] == "edge":
            ids = [self.mk_id(n, p) for n, p in s[1]]
            to = [tup(i, T.make(self.arrow, [], "Arrow" if k == ">" else "Line")) for i, k in zip(ids[1:], s[2])]
            x = T.make(self.edge, {"from": ids[0], "to": vec(to), "list": self.mk_attrs(s[3])})
            return T.make(self.stmt, [x], "Edge")
        if s[0] == "attr":
            x = T.make(self.attr, {"target": T.make(self.target, [], s[1].capitalize()), "list": self.mk_attrs(s[2])})
            return T.make(self.stmt, [x], "Attribute")
        return T.make(self.stmt, [self.mk_graph(s[1])], "SubGraph")
