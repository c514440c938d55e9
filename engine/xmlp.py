"""XML with holes: parses a text made of literal parts and input-dependent parts."""
from terms import *

NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_:."


class Bad(Exception):
    pass


class Unknown(Exception):
    pass


class Node:
    def __init__(self, tag):
        self.tag, self.attrs, self.kids, self.raw = tag, {}, [], []

    def find(self, tag):
        out = [self] if self.tag == tag else []
        for k in self.kids:
            if isinstance(k, Node):
                out += k.find(tag)
        return out

    def texts(self):
        out = []
        for k in self.kids:
            if isinstance(k, Node):
                out += k.texts()
            else:
                out.append(k)
        return out


def stream(parts):
    for p in parts:
        if p.k == "lit":
            for c in p.a[0]:
                yield c
        else:
            yield p


def parse(parts, kind, frag=True):
    """kind(part) -> 'num' (digits, sign, point, letters: fits anywhere in a value or text), 'esc' (escaped text), 'attrs' (raw attributes, only inside a tag),
    'raw' (may hold any character), 'xml' (a balanced fragment), 'empty'.  Returns the root node; raises Bad(message)."""
    s = list(stream(parts))
    n = len(s)
    root = Node("#root")
    stack = [root]
    i = 0

    def ctx(i):
        return "".join(c if isinstance(c, str) else "{" + show(c)[:40] + "}" for c in s[max(0, i - 30):i + 10]).replace("\n", " ")

    def hole(p, where):
        k = kind(p)
        if k is None:
            raise Unknown("%s in %s" % (show(p)[:80], where))
        if k == "raw":
            raise Bad("unescaped text %s in %s" % (show(p)[:80], where))
        if k == "attrs" and where != "tag" or k == "xml" and where != "text":
            raise Bad("%s in %s" % (show(p)[:80], where))
        if where == "tag" and k not in ("attrs", "empty"):
            raise Bad("%s between attributes" % show(p)[:80])
        return k

    while i < n:
        c = s[i]
        if not isinstance(c, str):
            k = hole(c, "text")
            stack[-1].kids.append(c)
            i += 1
            continue
        if c != "<":
            if c == "&":
                j = i + 1
                while j < n and isinstance(s[j], str) and s[j] not in "; <&":
                    j += 1
                if j >= n or s[j] != ";":
                    raise Bad("stray & in text near %s" % ctx(i))
            j = i
            while j < n and isinstance(s[j], str) and s[j] != "<":
                j += 1
            t = "".join(s[i:j])
            stack[-1].kids.append(t)
            i = j
            continue
        # a tag
        i += 1
        if i < n and s[i] == "?":
            while i < n and s[i] != ">":
                i += 1
            i += 1
            continue
        if i + 2 < n and s[i] == "!" and s[i + 1] == "-" and s[i + 2] == "-":
            while i < n and not (s[i] == ">" and s[i - 1] == "-" and s[i - 2] == "-"):
                i += 1
            i += 1
            continue
        if i < n and s[i] == "/":
            j = i + 1
            nm = ""
            while j < n and isinstance(s[j], str) and s[j] in NAME:
                nm += s[j]
                j += 1
            while j < n and isinstance(s[j], str) and s[j].isspace():
                j += 1
            if j >= n or s[j] != ">":
                raise Bad("malformed closing tag near %s" % ctx(i))
            if len(stack) == 1:
                raise Bad("closing tag </%s> without an opening one" % nm)
            if stack[-1].tag != nm:
                raise Bad("</%s> closes <%s>" % (nm, stack[-1].tag))
            stack.pop()
            i = j + 1
            continue
        nm = ""
        while i < n and isinstance(s[i], str) and s[i] in NAME:
            nm += s[i]
            i += 1
        if not nm:
            raise Bad("malformed tag near %s" % ctx(i))
        nd = Node(nm)
        stack[-1].kids.append(nd)
        sp = False
        while True:
            if i >= n:
                raise Bad("tag <%s> is not closed" % nm)
            c = s[i]
            if not isinstance(c, str):
                if not sp:
                    raise Bad("%s directly after a name or value in <%s>" % (show(c)[:60], nm))
                hole(c, "tag")
                nd.raw.append(c)
                i += 1
                sp = False
                continue
            if c.isspace():
                sp = True
                i += 1
                continue
            if c == ">":
                stack.append(nd)
                i += 1
                break
            if c == "/":
                if i + 1 >= n or s[i + 1] != ">":
                    raise Bad("stray / in <%s>" % nm)
                i += 2
                break
            if c not in NAME:
                raise Bad("unexpected %r in <%s> near %s" % (c, nm, ctx(i)))
            if not sp:
                raise Bad("no space before an attribute of <%s> near %s" % (nm, ctx(i)))
            an = ""
            while i < n and isinstance(s[i], str) and s[i] in NAME:
                an += s[i]
                i += 1
            while i < n and isinstance(s[i], str) and s[i].isspace():
                i += 1
            if i >= n or s[i] != "=":
                raise Bad("attribute %s of <%s> has no value" % (an, nm))
            i += 1
            while i < n and isinstance(s[i], str) and s[i].isspace():
                i += 1
            if i >= n or s[i] not in ("'", '"'):
                raise Bad("value of %s in <%s> is not quoted" % (an, nm))
            q = s[i]
            i += 1
            val = []
            while i < n and s[i] != q:
                if isinstance(s[i], str):
                    if s[i] == "<":
                        raise Bad("< in the value of %s in <%s>" % (an, nm))
                else:
                    hole(s[i], "value")
                val.append(s[i])
                i += 1
            if i >= n:
                raise Bad("value of %s in <%s> does not end" % (an, nm))
            i += 1
            sp = False
            if an in nd.attrs:
                raise Bad("attribute %s of <%s> is given twice" % (an, nm))
            nd.attrs[an] = val
    if len(stack) > 1:
        raise Bad("<%s> is not closed" % stack[-1].tag)
    return root
