"""Symbolic values, lvalues and generated proof code."""
import re
from cast import Ty, Unsupported, RANGE

T_BOOL, T_INT, T_U64, T_I64, T_U32 = Ty("bool"), Ty("int", name="i32"), Ty("int", name="u64"), Ty("int", name="i64"), Ty("int", name="u32")
T_STR, T_CHAR, T_VOID, T_SV = Ty("str"), Ty("char"), Ty("void"), Ty("sv")
T_CP = Ty("ptr", (Ty("char"),))
T_NODEP = Ty("ptr", (Ty("g", name="GumboNode"),))
T_ATTRP = Ty("ptr", (Ty("g", name="GumboAttribute"),))
T_RULEP = Ty("rulep")
T_OUTP = Ty("ptr", (Ty("g", name="GumboOutput"),))
T_OUTSET = Ty("outset")
T_OS = Ty("ostream")


class V:
    __slots__ = ("ty", "e")

    def __init__(self, ty, e):
        self.ty, self.e = ty, e

    def key(self):
        return (repr(self.ty), self.e)

    def __repr__(self):
        return "V(%r,%s)" % (self.ty, self.e)


class Obj:
    """A class object held by value, field by field (canonical field names)."""
    __slots__ = ("ty", "f", "src")

    def __init__(self, ty, f):
        self.ty, self.f, self.src = ty, dict(f), None      # src: the place a pointer was taken from

    def key(self):
        return ("obj", self.ty.name, tuple((k, v.key()) for k, v in sorted(self.f.items())))

    def __repr__(self):
        return "Obj(%s,%r)" % (self.ty.name, self.f)


class G:
    """An immutable piece of the Gumbo tree: kind in node,nodev,elem,text,doc,gvec,gdata,attr."""
    __slots__ = ("kind", "p", "x", "ty")

    def __init__(self, kind, p, x=None, ty=None):
        self.kind, self.p, self.x = kind, p, x
        self.ty = ty or Ty("g", name={"node": "GumboNode", "elem": "GumboElement", "text": "GumboText", "doc": "GumboDocument",
                                       "gvec": "GumboVector", "attr": "GumboAttribute"}.get(kind, kind))

    @property
    def e(self):
        return self.p

    def key(self):
        return ("g", self.kind, self.p, self.x)

    def get(self, ex, st):
        return self

    def set(self, ex, st, v):
        raise Unsupported("write into the document tree")


class Lam:
    __slots__ = ("node", "snap", "this", "ty")

    def __init__(self, node, snap, this):
        self.node, self.snap, self.this, self.ty = node, snap, this, Ty("lambda")

    def key(self):
        return ("lam", self.node.get("id"), tuple(sorted((k, repr(v.key())) for k, v in self.snap.items())))


class FnRef:
    __slots__ = ("decl", "ty")

    def __init__(self, decl):
        self.decl, self.ty = decl, Ty("fntype")

    def key(self):
        return ("fnref", self.decl.get("id"))


class It:
    """Iterator: (sequence expression or lvalue, index, reverse?)"""
    __slots__ = ("seq", "pos", "rev", "ty", "lv", "elty")

    def __init__(self, seq, pos, rev, lv=None, elty=None):
        self.seq, self.pos, self.rev, self.lv, self.elty, self.ty = seq, pos, rev, lv, elty, Ty("iter")

    def key(self):
        return ("it", self.seq, self.pos, self.rev)


class Ptr:
    """Raw pointer to an owned, mutable object (lvalue path); lv None = null.
    cond: Verus bool that says the pointer is non-null."""
    __slots__ = ("lv", "cond", "ty")

    def __init__(self, lv, cond="true", ty=None):
        self.lv, self.cond, self.ty = lv, cond, ty or Ty("ptr", (Ty("other"),))

    def key(self):
        return ("ptr", self.lv.key() if self.lv else None, self.cond)


class Odd:
    """A library object handled by name (match_results, tokenizer, setw, quoted, ...)."""
    __slots__ = ("name", "d", "ty")

    def __init__(self, name, d, ty=None):
        self.name, self.d, self.ty = name, d, ty or Ty("other", name=name)

    def key(self):
        return ("odd", self.name, tuple((k, (v.key() if hasattr(v, "key") else v)) for k, v in sorted(self.d.items())))


# ---------------------------------------------------------------- lvalues
class LKey:
    __slots__ = ("k", "ty")

    def __init__(self, k, ty):
        self.k, self.ty = k, ty

    def key(self):
        return ("lkey", self.k)

    def get(self, ex, st):
        if self.k not in st.env:
            raise Unsupported("unbound variable " + str(self.k))
        v = st.env[self.k]
        return v

    def set(self, ex, st, v):
        return st.put(self.k, v)


class LFld:
    __slots__ = ("b", "f", "ty")

    def __init__(self, b, f, ty):
        self.b, self.f, self.ty = b, f, ty

    def key(self):
        return ("lfld", self.b.key(), self.f)

    def get(self, ex, st):
        o = self.b.get(ex, st)
        if isinstance(o, V):
            o = ex.unpack_obj(o)
        if isinstance(o, Obj):
            if self.f not in o.f:
                raise Unsupported("field " + self.f)
            return o.f[self.f]
        raise Unsupported("field %s of %r" % (self.f, o))

    def set(self, ex, st, v):
        o = self.b.get(ex, st)
        if isinstance(o, V):
            o = ex.unpack_obj(o)
        n = Obj(o.ty, o.f)
        n.f[self.f] = v
        return self.b.set(ex, st, n)


class LTup:
    __slots__ = ("b", "i", "ty")

    def __init__(self, b, i, ty):
        self.b, self.i, self.ty = b, i, ty

    def key(self):
        return ("ltup", self.b.key(), self.i)

    def get(self, ex, st):
        o = self.b.get(ex, st)
        m = split_tuple(o.e)
        if m:
            return ex.unpack(self.ty, m[self.i])
        return ex.unpack(self.ty, "%s.%d" % (atom(o.e), self.i))

    def set(self, ex, st, v):
        o = self.b.get(ex, st)
        m = split_tuple(o.e) or ["%s.0" % atom(o.e), "%s.1" % atom(o.e)]
        m[self.i] = ex.pack(v, self.ty)
        return self.b.set(ex, st, V(o.ty, "(%s, %s)" % tuple(m)))


class LIdx:
    __slots__ = ("b", "i", "ty")

    def __init__(self, b, i, ty):
        self.b, self.i, self.ty = b, i, ty

    def key(self):
        return ("lidx", self.b.key(), self.i)

    def get(self, ex, st):
        o = self.b.get(ex, st)
        return ex.unpack(self.ty, "%s[%s]" % (atom(o.e), self.i))

    def set(self, ex, st, v):
        o = self.b.get(ex, st)
        return self.b.set(ex, st, V(o.ty, "%s.update(%s, %s)" % (atom(o.e), self.i, ex.pack(v, self.ty))))


class LLast(LIdx):
    """back() of a sequence (also when empty is excluded by an obligation)."""

    def __init__(self, b, ty):
        self.b, self.i, self.ty = b, None, ty

    def key(self):
        return ("llast", self.b.key())

    def get(self, ex, st):
        o = self.b.get(ex, st)
        return ex.unpack(self.ty, "%s.last()" % atom(o.e))

    def set(self, ex, st, v):
        o = self.b.get(ex, st)
        return self.b.set(ex, st, V(o.ty, "%s.drop_last().push(%s)" % (atom(o.e), ex.pack(v, self.ty))))


class LSome:
    """Target of an engaged optional or a non-null unique_ptr."""
    __slots__ = ("b", "ty", "box")

    def __init__(self, b, ty, box):
        self.b, self.ty, self.box = b, ty, box

    def key(self):
        return ("lsome", self.b.key())

    def get(self, ex, st):
        o = self.b.get(ex, st)
        e = some_payload(o.e)
        if self.box:
            e = unbox(e)
        return ex.unpack(self.ty, e)

    def set(self, ex, st, v):
        o = self.b.get(ex, st)
        e = ex.pack(v, self.ty)
        if self.box:
            e = "Box::new(%s)" % e
        return self.b.set(ex, st, V(o.ty, "Some(%s)" % e))


class LHops:
    """The object reached from b by k hops along the owning `next` chain."""
    __slots__ = ("b", "k", "ty")

    def __init__(self, b, k, ty):
        self.b, self.k, self.ty = b, k, ty

    def key(self):
        return ("lhops", self.b.key(), self.k)

    def get(self, ex, st):
        o = ex.pack(self.b.get(ex, st), self.ty)
        return ex.unpack(self.ty, "%s(%s, %s)" % (ex.hop_fn(self.ty, "get"), o, self.k))

    def set(self, ex, st, v):
        o = ex.pack(self.b.get(ex, st), self.ty)
        return self.b.set(ex, st, ex.unpack(self.ty, "%s(%s, %s, %s)" % (ex.hop_fn(self.ty, "set"), o, self.k, ex.pack(v, self.ty))))


class LRule:
    """*p for a `const Rule *` into an immutable rule tree."""
    __slots__ = ("p", "ty")

    def __init__(self, p):
        self.p, self.ty = p, Ty("cls", name="Rule")

    def key(self):
        return ("lrule", self.p)

    def get(self, ex, st):
        return self

    @property
    def e(self):
        return self.p

    def set(self, ex, st, v):
        raise Unsupported("write through const Rule *")


class LTmp:
    __slots__ = ("v", "ty")

    def __init__(self, v):
        self.v, self.ty = v, getattr(v, "ty", None)

    def key(self):
        return ("ltmp", self.v.key())

    def get(self, ex, st):
        return self.v

    def set(self, ex, st, v):
        return st


def unbox(e):
    m = re.match(r"^Box::new\((.*)\)$", e)
    if m and balanced(m.group(1)):
        return m.group(1)
    return "(*%s)" % e


def some_payload(e):
    m = re.match(r"^Some\((.*)\)$", e)
    if m and balanced(m.group(1)):
        return m.group(1)
    return "%s->Some_0" % atom(e)


def balanced(s):
    d = 0
    for c in s:
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
            if d < 0:
                return False
    return d == 0


def split_tuple(e):
    e = e.strip()
    if not (e.startswith("(") and e.endswith(")")) or not balanced(e[1:-1]):
        return None
    parts, d, cur = [], 0, ""
    for c in e[1:-1]:
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += c
    parts.append(cur.strip())
    return parts if len(parts) == 2 else None


def atom(e):
    if re.match(r"^[\w.]+$", e):
        return e
    if e.startswith("(") and e.endswith(")") and balanced(e[1:-1]):
        return e
    if re.match(r"^[A-Za-z_]\w*\(", e) and e.endswith(")") and balanced(e[e.index("(") + 1:-1]):
        return e
    return "(%s)" % e


def is_lit(e):
    return re.match(r"^\(?-?\d+\)?$", e) is not None


def lit(e):
    return int(e.strip("()"))


# ---------------------------------------------------------------- generated code
class Code:
    pass


class Done(Code):
    def render(self, out, ind):
        pass


class Leaf(Code):
    """Continuation marker, used by the purity probe."""

    def __init__(self, st, v):
        self.st, self.v = st, v

    def render(self, out, ind):
        raise AssertionError("leaf rendered")


class Assert(Code):
    def __init__(self, e, obl, rest):
        self.e, self.obl, self.rest = e, obl, rest

    def render(self, out, ind):
        out.append(("assert", ind, self.e, self.obl))
        self.rest.render(out, ind)


class Assume(Code):
    """fact guaranteed by a library type (e.g. a size is at most max_size)"""

    def __init__(self, e, rest):
        self.e, self.rest = e, rest

    def render(self, out, ind):
        out.append(("stmt", ind, "if %s {" % self.e, None))
        self.rest.render(out, ind)
        out.append(("stmt", ind, "}", None))


class Stmt(Code):
    def __init__(self, s, rest):
        self.s, self.rest = s, rest

    def render(self, out, ind):
        out.append(("stmt", ind, self.s, None))
        self.rest.render(out, ind)


class If(Code):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    known = {}

    def render(self, out, ind):
        # a condition already decided on this path (terms are pure and never rebound)
        if self.c in If.known:
            (self.a if If.known[self.c] else self.b).render(out, ind)
            return
        out.append(("stmt", ind, "if %s {" % self.c, None))
        If.known[self.c] = True
        self.a.render(out, ind + 1)
        If.known[self.c] = False
        if not isinstance(self.b, Done):
            out.append(("stmt", ind, "} else {", None))
            self.b.render(out, ind + 1)
        del If.known[self.c]
        out.append(("stmt", ind, "}", None))


class State:
    __slots__ = ("env",)

    def __init__(self, env):
        self.env = env

    def put(self, k, v):
        e = dict(self.env)
        e[k] = v
        return State(e)
