"""Verification condition generation: contracts + clang AST -> Verus proof functions.

The C++ function body is executed symbolically (every path, every loop through its
invariant); each safety condition, precondition of a call, loop invariant, measure and
postcondition becomes one `assert` of a Verus proof function, i.e. one obligation.
"""
import re, sys
from cast import *
from vals import *
import stl
import life
import rjson

sys.setrecursionlimit(20000)


class Obl:
    __slots__ = ("cls", "label", "line", "fn")

    def __init__(self, cls, label, line, fn):
        self.cls, self.label, self.line, self.fn = cls, label, line, fn

    def __str__(self):
        return "%s/%s: %s (source line %s)" % (self.fn, self.cls, self.label, self.line or "?")


class K:
    """Continuations of a statement."""
    __slots__ = ("next", "ret", "brk", "cont", "thr")

    def __init__(self, next, ret=None, brk=None, cont=None, thr=None):
        self.next, self.ret, self.brk, self.cont, self.thr = next, ret, brk, cont, thr

    def but(self, **kw):
        k = K(self.next, self.ret, self.brk, self.cont, self.thr)
        for a, b in kw.items():
            setattr(k, a, b)
        return k


class Ref:
    """A reference variable: alias of an lvalue."""
    __slots__ = ("lv", "ty")

    def __init__(self, lv):
        self.lv, self.ty = lv, lv.ty

    def key(self):
        return ("ref", self.lv.key())


LVALS = (LKey, LFld, LTup, LIdx, LLast, LSome, LHops, LTmp)


def is_lv(x):
    return isinstance(x, LVALS) or isinstance(x, (G, LRule)) or getattr(x, "islv", False)


def AND(a, b):
    if a == "true":
        return b
    if b == "true":
        return a
    if a == "false" or b == "false":
        return "false"
    return "(%s && %s)" % (a, b)


def OR(a, b):
    if a == "false":
        return b
    if b == "false":
        return a
    if a == "true" or b == "true":
        return "true"
    return "(%s || %s)" % (a, b)


def NOT(a):
    if a == "true":
        return "false"
    if a == "false":
        return "true"
    if re.match(r"^!\w+(\([^()]*\))?$", a) or (a.startswith("!(") and a.endswith(")") and balanced(a[2:-1])):
        return a[1:]
    return "!%s" % atom(a)


def IMP(a, b):
    if a == "true":
        return b
    if b == "true" or a == "false":
        return "true"
    return "(%s ==> %s)" % (a, b)


def strlits(txt):
    """S!("text") -> sequence of bytes"""
    return re.sub(r'S!\("((?:[^"\\]|\\.)*)"\)', lambda m: seqlit(list(m.group(1).encode().decode("unicode_escape").encode("latin-1"))), txt)


class Exec:
    def __init__(self, tu, schema, contracts, fname=None):
        self.tu, self.schema, self.contracts = tu, schema, contracts
        self.fname = fname
        self.params = []         # extra proof function parameters
        self.n = 0
        self.nolet = 0
        self.depth = 0
        self.inlined = set()
        self.called = set()
        self.cur = None          # contract of the function under verification
        self.curargs = {}
        self.loopmap = {}
        self.stack = []
        self.assumes = set()
        self.fieldmaps = {}
        self.rolechoice = {}
        self.ambiguous = {}
        self.role_cands = {}
        self.bare_loops = set()     # loops without an annotation
        self.defaults = {}

    # ------------------------------------------------------------ naming
    def fresh(self, ty, base="h"):
        self.n += 1
        nm = "%s%d" % (re.sub(r"\W", "", base) or "h", self.n)
        return self.freshval(ty, nm)

    def freshval(self, ty, nm):
        if ty.k == "ptr" and ty.args[0].k == "char":
            self.params.append((nm, "CP"))
            return self.unpack(ty, nm)
        self.params.append((nm, self.vt(ty)))
        return self.unpack(ty, nm)

    def tmpname(self, base="v"):
        self.n += 1
        return "%s_%d" % (base, self.n)

    # ------------------------------------------------------------ types
    def vt(self, ty):
        k = ty.k
        if k == "bool":
            return "bool"
        if k == "int":
            return ty.name
        if k == "char":
            return "i8"
        if k in ("str", "sv", "ostream"):
            return "Seq<i8>"
        if k == "ptr":
            b = ty.args[0]
            if b.k == "char":
                return "CP"
            if b.k == "g" and b.name == "GumboNode":
                return "NodeP"
            if b.k == "g" and b.name == "GumboAttribute":
                return "AttrP"
            if b.k == "g" and b.name == "GumboOutput":
                return "OutP"
            if b.k == "cls" and b.name == "Rule":
                return "RuleP"
        if k == "outset":
            return "Set<int>"
        if k == "vm":
            return "VmV"
        if k == "podesc":
            return "Seq<OptD>"
        if k == "js":
            return "Js"
        if k == "jsbuf":
            return "Seq<i8>"
        if k == "rulep":
            return "RuleP"
        if k == "vec":
            return "Seq<%s>" % self.vt(ty.args[0])
        if k == "uptr":
            return "Option<Box<%s>>" % self.vt(ty.args[0])
        if k == "opt":
            return "Option<%s>" % self.vt(ty.args[0])
        if k == "pair":
            return "(%s, %s)" % (self.vt(ty.args[0]), self.vt(ty.args[1]))
        if k == "mmap":
            return "Seq<(%s, %s)>" % (self.vt(ty.args[0]), self.vt(ty.args[1]))
        if k == "fn":
            return "FnV" if "string" in ty.name else "MFnV"
        if k == "regex":
            return "RxV"
        if k == "cls":
            return self.cls_vt(ty.name)
        if k == "g":
            if ty.name == "GumboAttribute":
                return "AttrP"
            return "NodeP"
        raise Unsupported("type %r" % ty)

    def cls_vt(self, name):
        s = self.schema.classes.get(name)
        if not s:
            raise Unsupported("class " + name)
        return s.get("vt") or self.cls_vt(s["base"])

    # ------------------------------------------------------------ pack / unpack
    def pack(self, v, ty=None):
        if isinstance(v, Ref):
            raise Unsupported("pack ref")
        if isinstance(v, LRule):
            return v.p
        if isinstance(v, G):
            return v.p
        if isinstance(v, Obj):
            t = v.ty
            if t.k == "ptr":
                b = v.f["buf"].e
                if b.endswith(".buf") and v.f["null"].e == b[:-4] + ".null" and v.f["off"].e == b[:-4] + ".off":
                    return b[:-4]
                return "CP{null: %s, buf: %s, off: %s}" % (v.f["null"].e, v.f["buf"].e, v.f["off"].e)
            s = self.schema.classes.get(t.name)
            if not s:
                raise Unsupported("pack class " + t.name)
            return s["pack"](self, v)
        if isinstance(v, FnRef):
            return self.schema.fnref(self, v.decl)
        if isinstance(v, Ptr):
            raise Unsupported("pack pointer")
        if isinstance(v, Odd):
            return stl.pack_odd(self, v)
        if isinstance(v, Lam):
            raise Unsupported("lambda stored")
        if isinstance(v, It):
            raise Unsupported("iterator stored")
        t = ty if ty is not None and ty.k in ("int", "char") else v.ty
        if v.ty.k == "int" or (v.ty.k in ("char", "bool") and t.k == "int"):
            if v.ty.k == "bool":
                return "(if %s {1%s} else {0%s})" % (v.e, t.name, t.name)
            n = t.name if t.k == "int" else "i8"
            e = v.e
            if is_lit(e):
                x = lit(e)
                return "%d%s" % (x, n) if x >= 0 else "(%d%s)" % (x, n)
            m = re.match(r"^\(([\w.]+) as int\)$", e)
            return "(%s as %s)" % (atom(e), n)
        return v.e

    def unpack(self, ty, e):
        if ty.k == "int":
            return V(ty.noref(), "(%s as int)" % atom(e))
        if ty.k == "ptr" and ty.args[0].k == "cls" and ty.args[0].name == "Rule":
            return V(T_RULEP, e)
        if ty.k == "ptr" and ty.args[0].k == "char":
            m = re.match(r"^CP\{null: (.*), buf: (.*), off: (.*)\}$", e)
            if m and all(balanced(g) for g in m.groups()):
                return mk_cp(*m.groups())
            a = atom(e)
            return mk_cp(a + ".null", a + ".buf", a + ".off")
        if ty.k == "g":
            return G({"GumboNode": "node", "GumboElement": "elem", "GumboText": "text", "GumboDocument": "doc",
                      "GumboAttribute": "attr"}[ty.name], e)
        return V(ty.noref(), e)

    def unpack_obj(self, v):
        """A class object held as one packed term -> field by field."""
        s = self.schema.classes.get(v.ty.name)
        if not s or "unpack" not in s:
            raise Unsupported("object of class %s as a term" % v.ty.name)
        return s["unpack"](self, v)

    # ------------------------------------------------------------ obligations
    def ob(self, cond, cls, label, node, rest):
        if cond == "true":
            return rest
        return Assert(cond, Obl(cls, label, line_of(node) if node else 0, self.fname), rest)

    # ------------------------------------------------------------ values
    def val(self, x, st):
        return x.get(self, st) if is_lv(x) else x

    def ev(self, e, st, k):
        return self.x(e, st, lambda s, v: k(s, self.val(v, s)))

    def lv(self, e, st, k):
        return self.x(e, st, lambda s, v: k(s, v if is_lv(v) else LTmp(v)))

    def evs(self, es, st, k, acc=()):
        if not es:
            return k(st, list(acc))
        return self.ev(es[0], st, lambda s, v: self.evs(es[1:], s, k, acc + (v,)))

    def xs(self, es, st, k, acc=()):
        if not es:
            return k(st, list(acc))
        return self.x(es[0], st, lambda s, v: self.xs(es[1:], s, k, acc + (v,)))

    def truth(self, v, st=None):
        """Contextual conversion to bool."""
        if isinstance(v, Obj) and v.ty.k == "ptr":
            return NOT(v.f["null"].e)
        if isinstance(v, (Ptr,)):
            return v.cond if v.lv is not None else "false"
        if isinstance(v, G):
            raise Unsupported("truth of tree object")
        if isinstance(v, V):
            t = v.ty
            if t.k == "bool":
                return v.e
            if t.k == "int":
                return "(%s != 0)" % v.e
            if t.k == "char":
                return "(%s != 0)" % v.e
            if t.k == "ptr" or t.k in ("rulep", "ruleuptr"):
                return NOT("%s is Null" % v.e) if False else "!(%s is Null)" % atom(v.e)
            if t.k in ("uptr", "opt"):
                if v.e.startswith("Some("):
                    return "true"
                if v.e == "None":
                    return "false"
                m = re.match(r"^(Option::None::<.*>|None::<.*>)$", v.e)
                if m:
                    return "false"
                return "(%s is Some)" % v.e
            if t.k == "fn":
                return "!(%s is Null)" % atom(v.e)
            if t.k == "nullptr":
                return "false"
        if isinstance(v, FnRef):
            return "true"
        if isinstance(v, Odd):
            return stl.truth_odd(self, v)
        raise Unsupported("truth of %r" % (v,))

    def unparen(self, e):
        while e.get("kind") in ("ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ConstantExpr",
                                "SubstNonTypeTemplateParmExpr", "CXXStdInitializerListExpr", "AttributedStmt", "ImplicitCastExpr") and (e.get("kind") != "ImplicitCastExpr" or e.get("castKind") in ("NoOp",)):
            e = e["inner"][0]
        return e

    # ------------------------------------------------------------ expressions
    def x(self, e, st, k):
        kind = e.get("kind")
        m = getattr(self, "x_" + kind, None)
        if m is None:
            raise Unsupported("expression " + str(kind) + " line %s" % line_of(e))
        return m(e, st, k)

    def x_first(self, e, st, k):
        return self.x(e["inner"][0], st, k)

    x_ParenExpr = x_ExprWithCleanups = x_SubstNonTypeTemplateParmExpr = x_first

    def x_CXXBindTemporaryExpr(self, e, st, k):
        t = self.tu.ty(e)
        if t.k == "cls" and self.schema.classes.get(t.name, {}).get("dtor"):
            raise Unsupported("temporary document handle")
        return self.x_first(e, st, k)

    def x_ConstantExpr(self, e, st, k):
        if "value" in e and self.tu.ty(e).k == "int":
            return k(st, V(self.tu.ty(e), intlit(int(e["value"]))))
        return self.x(e["inner"][0], st, k)

    def x_CXXStdInitializerListExpr(self, e, st, k):
        return self.x(e["inner"][0], st, k)

    def x_MaterializeTemporaryExpr(self, e, st, k):
        def go(s, v):
            if is_lv(v):
                return k(s, v)
            key = "tmp:" + self.tmpname("t")
            return k(s.put(key, v), LKey(key, v.ty))
        return self.x(e["inner"][0], st, go)

    def x_CXXDefaultInitExpr(self, e, st, k):
        raise Unsupported("default member initialiser")

    def x_IntegerLiteral(self, e, st, k):
        return k(st, V(self.tu.ty(e), intlit(int(e["value"]))))

    def x_CharacterLiteral(self, e, st, k):
        v = int(e["value"])
        return k(st, V(T_CHAR, "%di8" % v if v >= 0 else "(%di8)" % v))

    def x_CXXBoolLiteralExpr(self, e, st, k):
        return k(st, V(T_BOOL, "true" if e["value"] else "false"))

    def x_CXXNullPtrLiteralExpr(self, e, st, k):
        return k(st, V(Ty("nullptr"), "null"))

    x_GNUNullExpr = x_CXXNullPtrLiteralExpr

    def x_StringLiteral(self, e, st, k):
        return k(st, V(Ty("strlit"), seqlit(cstring(e["value"]))))

    def x_CXXScalarValueInitExpr(self, e, st, k):
        t = self.tu.ty(e)
        return k(st, self.zero(t))

    x_ImplicitValueInitExpr = x_CXXScalarValueInitExpr

    def zero(self, t):
        if t.k == "bool":
            return V(t, "false")
        if t.k == "int":
            return V(t, "0")
        if t.k == "char":
            return V(t, "0i8")
        if t.k == "ptr":
            return self.null_of(t)
        raise Unsupported("zero of %r" % t)

    def null_of(self, t):
        if t.k == "ptr":
            b = t.args[0]
            if b.k == "char":
                return mk_cp("true", "Seq::<i8>::empty()", "0")
            if b.k == "g" and b.name == "GumboNode":
                return V(t.noref(), "NodeP::Null")
            if b.k == "g" and b.name == "GumboAttribute":
                return V(t.noref(), "AttrP::Null")
            if b.k == "g" and b.name == "GumboOutput":
                return V(t.noref(), "OutP::Null")
            if b.k == "cls" and b.name == "Rule" and self.rule_ptr_mode():
                return V(T_RULEP, "RuleP::Null")
            return Ptr(None, "false", t)
        if t.k in ("uptr", "opt"):
            return V(t.noref(), "None::<%s>" % (self.vt(t)[7:-1]))
        if t.k == "fn":
            return V(t.noref(), self.vt(t) + "::Null")
        raise Unsupported("null of %r" % t)

    def rule_ptr_mode(self):
        return True

    def x_DeclRefExpr(self, e, st, k):
        d = e["referencedDecl"]
        i = d["id"]
        dk = d["kind"]
        if dk == "EnumConstantDecl":
            n = self.tu.byid.get(i)
            if n is not None and "_value" in n:
                return k(st, V(self.tu.ty(e), intlit(n["_value"])))
            v = rjson.ENUM.get(d["name"]) if "rapidjson::Type" in d.get("type", {}).get("qualType", "") else self.schema.enumval(d["name"])
            if v is None:
                raise Unsupported("enum constant " + d["name"])
            return k(st, V(self.tu.ty(e), intlit(v)))
        if dk in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            if i in st.env:
                v = st.env[i]
                if isinstance(v, Ref):
                    return k(st, v.lv)
                return k(st, LKey(i, self.tu.ty(d)))
            if d.get("name") in ("cout", "cerr") and "glob:" + d["name"] in st.env:
                return k(st, LKey("glob:" + d["name"], T_OS))
            g = self.schema.global_(self, d)
            if g is not None:
                return k(st, g)
            n = self.tu.byid.get(i)
            if n is not None and n.get("kind") == "VarDecl" and (n.get("constexpr") or "const" in n["type"]["qualType"]) and n.get("inner"):
                return self.x(n["inner"][-1], st, k)
            raise Unsupported("variable " + d.get("name", "?"))
        if dk in ("FunctionDecl", "CXXMethodDecl"):
            return k(st, FnRef(d))
        raise Unsupported("reference to " + dk)

    def x_CXXThisExpr(self, e, st, k):
        v = st.env.get("this")
        if v is None:
            raise Unsupported("this")
        return k(st, v)

    # -------- pointers
    def deref(self, v, st, node, k):
        """lvalue denoted by *v"""
        if isinstance(v, Odd) and v.name == "posem":
            return k(st, LTmp(v))
        if isinstance(v, Ptr):
            if v.lv is None:
                return self.ob("false", "null", "null pointer is not dereferenced", node, Done())
            return self.ob(v.cond, "null", "pointer is not null when dereferenced", node, k(st, v.lv))
        if isinstance(v, Obj) and v.ty.k == "ptr":
            c = AND(NOT(v.f["null"].e), "(0 <= %s && %s < %s.len())" % (v.f["off"].e, v.f["off"].e, atom(v.f["buf"].e)))
            return self.ob(c, "bounds", "character pointer is inside its buffer when read", node,
                           k(st, LTmp(V(T_CHAR, "%s[%s]" % (atom(v.f["buf"].e), v.f["off"].e)))))
        if isinstance(v, It):
            return stl.it_deref(self, v, st, node, k)
        if isinstance(v, V):
            t = v.ty
            if t.k in ("uptr", "opt"):
                box = t.k == "uptr"
                return self.ob(self.truth(v), "null", "%s holds a value when dereferenced" % ("unique_ptr" if box else "optional"), node,
                               k(st, LTmp(LSome(LTmp(v), t.args[0], box).get(self, st))))
            if t.k == "ptr" and t.args[0].k == "g" and t.args[0].name == "GumboOutput":
                al = st.env.get("ghost:alive")
                if al is None:
                    raise Unsupported("parse result used outside the document handle")
                return self.ob(self.truth(v), "null", "parse result is not null when dereferenced", node,
                               self.ob("%s.contains(%s->Out_0)" % (atom(al.e), atom(v.e)), "free", "parse result has not been destroyed when it is used", node, k(st, G("out", v.e))))
            if t.k == "ptr" and t.args[0].k == "g":
                kind = {"GumboNode": "node", "GumboAttribute": "attr"}.get(t.args[0].name)
                if not kind:
                    raise Unsupported("deref %r" % t)
                return self.ob(self.truth(v), "null", "pointer is not null when dereferenced", node, k(st, G(kind, v.e)))
            if t.k in ("rulep", "ruleuptr"):
                return self.ob(self.truth(v), "null", "rule pointer is not null when dereferenced", node, k(st, LRule(v.e)))
        if isinstance(v, Odd):
            return stl.deref_odd(self, v, st, node, k)
        raise Unsupported("deref of %r" % (v,))

    def deref_lv(self, l, st, node, k):
        """*l for an lvalue l holding a smart pointer (target stays assignable)."""
        v = self.val(l, st)
        if isinstance(v, V) and v.ty.k in ("uptr", "opt") and is_lv(l) and not isinstance(l, LTmp):
            box = v.ty.k == "uptr"
            return self.ob(self.truth(v), "null", "%s holds a value when dereferenced" % ("unique_ptr" if box else "optional"), node,
                           k(st, LSome(l, v.ty.args[0], box)))
        return self.deref(v, st, node, k)

    def addr(self, l, st):
        if isinstance(l, G):
            if l.kind == "node":
                return V(T_NODEP, l.p)
            if l.kind == "attr":
                return V(T_ATTRP, l.p)
            return Ptr(l, "true", Ty("ptr", (l.ty,)))
        if isinstance(l, LRule):
            return V(T_RULEP, l.p)
        if isinstance(l, LTmp) and isinstance(l.v, LRule):
            return V(T_RULEP, l.v.p)
        return Ptr(l, "true", Ty("ptr", (l.ty or Ty("other"),)))

    def x_UnaryOperator(self, e, st, k):
        op = e["opcode"]
        a = e["inner"][0]
        if op == "*":
            def go(s, v):
                if is_lv(v) and not isinstance(v, (G, LRule)):
                    return self.deref_lv(v, s, e, k)
                return self.deref(v, s, e, k)
            return self.x(a, st, go)
        if op == "&":
            return self.x(a, st, lambda s, l: k(s, l if isinstance(l, FnRef) else self.addr(l if is_lv(l) else LTmp(l), s)))
        if op == "!":
            return self.ev(a, st, lambda s, v: k(s, V(T_BOOL, NOT(self.truth(v)))))
        if op in ("++", "--"):
            def go(s, l):
                v = l.get(self, s)
                d = 1 if op == "++" else -1
                return self.bump(v, d, s, e, lambda s2, n: self.assign(l, n, s2, lambda s3: k(s3, v if e.get("isPostfix") else l)))
            return self.lv(a, st, go)
        if op in ("-", "+", "~"):
            t = self.tu.ty(e)
            def go(s, v):
                if op == "+":
                    return k(s, V(t, self.num(v)))
                if op == "~":
                    return self.arith(t, "(-%s - 1)" % atom(self.num(v)) if not is_lit(self.num(v)) else intlit(-lit(self.num(v)) - 1), s, e, k) if t.k == "int" and t.name[0] == "i" else self.unsupported("~")
                if is_lit(v.e):
                    return k(s, V(t, intlit(-lit(v.e))))
                return self.arith(t, "(-%s)" % atom(self.num(v)), s, e, k)
            return self.ev(a, st, go)
        raise Unsupported("unary " + op)

    def bump(self, v, d, st, node, k):
        if isinstance(v, V) and v.ty.k in ("int", "char"):
            t = v.ty
            if t.k == "char":
                return k(st, V(t, "wrap_i8(%s + %d)" % (self.num(v), d) if d > 0 else "wrap_i8(%s - 1)" % self.num(v)))
            return self.arith(t, "(%s + 1)" % v.e if d > 0 else "(%s - 1)" % v.e, st, node, k)
        if isinstance(v, Obj) and v.ty.k == "ptr":
            o = mk_cp(v.f["null"].e, v.f["buf"].e, simp("(%s %s 1)" % (v.f["off"].e, "+" if d > 0 else "-")))
            return self.ob(self.cp_ok(o), "bounds", "character pointer stays inside its buffer", node, k(st, o))
        if isinstance(v, It):
            return stl.it_add(self, v, str(d), st, node, k)
        raise Unsupported("++ on %r" % (v,))

    def cp_ok(self, o):
        return AND(NOT(o.f["null"].e), "(0 <= %s && %s <= %s.len())" % (o.f["off"].e, o.f["off"].e, atom(o.f["buf"].e)))

    def unsupported(self, what):
        raise Unsupported(what)

    def num(self, v):
        """integer-valued term of an arithmetic value"""
        if isinstance(v, V):
            if v.ty.k == "int":
                return v.e
            if v.ty.k == "char":
                m = re.match(r"^\(?(-?\d+)i8\)?$", v.e)
                return m.group(1) if m else "(%s as int)" % atom(v.e)
            if v.ty.k == "bool":
                if v.e in ("true", "false"):
                    return "1" if v.e == "true" else "0"
                return "(if %s { 1int } else { 0int })" % v.e
        raise Unsupported("number %r" % (v,))

    def arith(self, t, e, st, node, k):
        """result of a computation in type t: signed -> no overflow, unsigned -> wraps"""
        e = simp(e)
        if t.k == "char":
            t = Ty("int", name="i8")
        if t.k != "int":
            raise Unsupported("arithmetic in %r" % t)
        lo, hi = RANGE[t.name]
        if is_lit(e) and lo <= lit(e) <= hi:
            return k(st, V(t, e))
        if t.name[0] == "i":
            return self.ob("(%s <= %s && %s <= %s)" % (intlit(lo), e, e, intlit(hi)), "overflow", "signed arithmetic does not overflow", node,
                           k(st, V(t, e)))
        return k(st, V(t, "wrap_%s(%s)" % (t.name, e)))

    def cast_int(self, v, t):
        """integral conversion, value preserving or modulo"""
        if t.k == "bool":
            return V(T_BOOL, self.truth(v))
        src = v.ty
        if t.k == "char":
            if src.k == "char":
                return v
            e = self.num(v)
            if is_lit(e) and -128 <= lit(e) <= 127:
                x = lit(e)
                return V(T_CHAR, "%di8" % x if x >= 0 else "(%di8)" % x)
            m = re.match(r"^\(([\w.\[\]]+) as int\)$", e)
            return V(T_CHAR, "(wrap_i8(%s) as i8)" % e)
        if t.k != "int":
            raise Unsupported("int cast to %r" % t)
        e = self.num(v)
        lo, hi = RANGE[t.name]
        if is_lit(e):
            x = lit(e)
            n = hi - lo + 1
            x = (x - lo) % n + lo
            return V(t, intlit(x))
        if src.k == "bool":
            return V(t, e)
        slo, shi = RANGE[src.name if src.k == "int" else "i8"]
        if lo <= slo and shi <= hi:
            return V(t, e)
        return V(t, "wrap_%s(%s)" % (t.name, e))

    def x_BinaryOperator(self, e, st, k):
        op = e["opcode"]
        a, b = e["inner"]
        if op == ",":
            return self.x(a, st, lambda s, v: self.x(b, s, k))
        if op == "=":
            # right operand first (C++17)
            return self.ev(b, st, lambda s, v: self.lv(a, s, lambda s2, l: self.assign(l, self.conv_to(v, l, s2), s2, lambda s3: k(s3, l))))
        if op in ("&&", "||"):
            def go(s, va):
                ca = self.truth(va)
                if op == "&&" and ca == "false" or op == "||" and ca == "true":
                    return k(s, V(T_BOOL, ca))
                if op == "&&" and ca == "true" or op == "||" and ca == "false":
                    return self.ev(b, s, lambda s2, vb: k(s2, V(T_BOOL, self.truth(vb))))
                guard = ca if op == "&&" else NOT(ca)
                r = self.pure(lambda kk: self.ev(b, s, lambda s2, vb: kk(s2, V(T_BOOL, self.truth(vb)))), s)
                if r is not None:
                    v, asserts = r
                    res = V(T_BOOL, AND(ca, v.e) if op == "&&" else OR(ca, v.e))
                    return self.guarded(asserts, guard, k(s, res))
                short = k(s, V(T_BOOL, "false" if op == "&&" else "true"))
                long = self.ev(b, s, lambda s2, vb: k(s2, V(T_BOOL, self.truth(vb))))
                return If(ca, long, short) if op == "&&" else If(ca, short, long)
            return self.ev(a, st, go)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.ev(a, st, lambda s, va: self.ev(b, s, lambda s2, vb: self.compare(op, va, vb, s2, e, k)))
        t = self.tu.ty(e)
        return self.ev(a, st, lambda s, va: self.ev(b, s, lambda s2, vb: self.binop(op, va, vb, t, s2, e, k)))

    def len_bound(self, e, code):
        """std containers: size() <= max_size() < 2^63"""
        if is_lit(e) or "seq![" in e[:6]:
            return code
        self.assumes.add("std containers and strings: size() is at most max_size(), below 2^63")
        return Assume("%s <= 0x7fff_ffff_ffff_ffff" % e, code)

    def guarded(self, asserts, guard, code):
        for c, o in reversed(asserts):
            code = Assert(IMP(guard, c), o, code) if o is not None else Assume(IMP(guard, c), code)
        return code

    def pure(self, run, st):
        """Try to evaluate without forking; -> (value, [(cond, obl)]) or None."""
        self.nolet += 1
        n0, p0 = self.n, len(self.params)
        try:
            code = run(lambda s, v: Leaf(s, v))
        except Unsupported:
            raise
        finally:
            self.nolet -= 1
        return self.merge(code, st)

    def merge(self, code, st):
        if isinstance(code, Leaf):
            if not self.same_env(code.st, st):
                return None
            return code.v, []
        if isinstance(code, Assert):
            r = self.merge(code.rest, st)
            if r is None:
                return None
            return r[0], [(code.e, code.obl)] + r[1]
        if isinstance(code, Assume):
            r = self.merge(code.rest, st)
            return None if r is None else (r[0], [(code.e, None)] + r[1])
        if isinstance(code, If):
            a, b = self.merge(code.a, st), self.merge(code.b, st)
            if a is None or b is None:
                return None
            v = self.join(code.c, a[0], b[0])
            if v is None:
                return None
            return v, [(IMP(code.c, c), o) for c, o in a[1]] + [(IMP(NOT(code.c), c), o) for c, o in b[1]]
        return None

    def join(self, c, a, b):
        if c == "true":
            return a
        if c == "false":
            return b
        if a is None and b is None:
            return None
        if isinstance(a, V) and isinstance(b, V):
            if a.key() == b.key():
                return a
            if a.ty.k == "bool" and b.ty.k == "bool":
                if a.e == "true":
                    return V(T_BOOL, OR(c, b.e))
                if a.e == "false":
                    return V(T_BOOL, AND(NOT(c), b.e))
                if b.e == "false":
                    return V(T_BOOL, AND(c, a.e))
                if b.e == "true":
                    return V(T_BOOL, OR(NOT(c), a.e))
            if a.ty == b.ty and a.ty.k not in ("strlit", "nullptr"):
                ae, be = a.e, b.e
                if a.ty.k == "int":
                    ae, be = (ae + "int" if is_lit(ae) and not ae.startswith("(") else ae), (be + "int" if is_lit(be) and not be.startswith("(") else be)
                return V(a.ty, "(if %s { %s } else { %s })" % (c, ae, be))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.ty == b.ty and set(a.f) == set(b.f):
            f = {}
            for n in a.f:
                f[n] = self.join(c, a.f[n], b.f[n])
                if f[n] is None:
                    return None
            return Obj(a.ty, f)
        return None

    def same_env(self, s1, s2):
        if s1.env is s2.env:
            return True
        for kk, v in s2.env.items():
            w = s1.env.get(kk)
            if w is not v and (w is None or w.key() != v.key()):
                return False
        return True

    def conv_to(self, v, l, st):
        """implicit conversions on assignment of builtins (already inserted by clang) and null pointers"""
        if isinstance(v, V) and v.ty.k == "nullptr":
            return self.null_of(l.ty)
        return v

    def assign(self, l, v, st, k):
        if isinstance(v, V) and isinstance(l, LVALS) and not self.nolet and len(v.e) > 80 and v.ty.k in ("int", "bool", "str", "vec", "mmap", "ostream", "cls", "uptr", "opt"):
            nm = self.tmpname("v")
            t = "int" if v.ty.k == "int" else self.vt(v.ty)
            nv = V(v.ty, nm)
            return Stmt("let %s: %s = %s;" % (nm, t, v.e), k(l.set(self, st, nv)))
        return k(l.set(self, st, v))

    def ptr_eq(self, a, b):
        """equality of two pointer-ish values -> bool term"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, V) and x.ty.k == "nullptr":
                return NOT(self.truth(y))
        if isinstance(a, Obj) and isinstance(b, Obj):
            return None
        if isinstance(a, V) and isinstance(b, V):
            return "(%s == %s)" % (a.e, b.e)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.lv is None or b.lv is None:
                o = a if b.lv is None else b
                return NOT(self.truth(o))
            ka, kb = repr(a.lv.key()), repr(b.lv.key())
            if ka == kb:
                return "true"
            ra, rb = root_key(a.lv), root_key(b.lv)
            if ra != rb or not (ka in kb or kb in ka):
                return "false"
            raise Unsupported("pointer comparison")
        raise Unsupported("pointer comparison %r %r" % (a, b))

    def compare(self, op, a, b, st, node, k):
        if isinstance(a, Odd) or isinstance(b, Odd):
            return stl.cmp_odd(self, op, a, b, st, node, k)
        if isinstance(a, It) and isinstance(b, It):
            return stl.it_cmp(self, op, a, b, st, node, k)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.ty.k == "ptr":
            same_buf = a.f["buf"].e == b.f["buf"].e
            c = "true" if same_buf else "(%s =~= %s)" % (a.f["buf"].e, b.f["buf"].e)
            o = op if op not in ("==", "!=") else op
            if op in ("==", "!=") and "true" in (a.f["null"].e, b.f["null"].e):
                r = AND(a.f["null"].e, b.f["null"].e)
                return k(st, V(T_BOOL, r if op == "==" else NOT(r)))
            if op in ("==", "!="):
                r = "(%s == %s && %s == %s)" % (a.f["null"].e, b.f["null"].e, a.f["off"].e, b.f["off"].e)
                return self.ob(OR(OR(a.f["null"].e, b.f["null"].e), c), "bounds", "compared character pointers belong to the same buffer", node,
                               k(st, V(T_BOOL, r if op == "==" else NOT(r))))
            return self.ob(AND(c, AND(NOT(a.f["null"].e), NOT(b.f["null"].e))), "bounds", "compared character pointers belong to the same buffer", node,
                           k(st, V(T_BOOL, "(%s %s %s)" % (a.f["off"].e, op, b.f["off"].e))))
        if isinstance(a, V) and isinstance(b, V) and a.ty.k in ("int", "char", "bool") and b.ty.k in ("int", "char", "bool"):
            if a.ty.k == "bool" and b.ty.k == "bool":
                r = "(%s %s %s)" % (a.e, op, b.e)
            elif a.ty.k == "char" and b.ty.k == "char":
                r = "(%s %s %s)" % (a.e, op, b.e)
            else:
                x, y = self.num(a), self.num(b)
                if is_lit(x) and is_lit(y):
                    r = {"==": lit(x) == lit(y), "!=": lit(x) != lit(y), "<": lit(x) < lit(y), ">": lit(x) > lit(y),
                         "<=": lit(x) <= lit(y), ">=": lit(x) >= lit(y)}[op]
                    r = "true" if r else "false"
                else:
                    r = "(%s %s %s)" % (x, op, y)
            return k(st, V(T_BOOL, r))
        if op in ("==", "!="):
            if isinstance(a, V) and isinstance(b, V) and a.ty.k in ("str", "sv", "vec", "strlit") and b.ty.k in ("str", "sv", "vec", "strlit"):
                r = "(%s =~= %s)" % (a.e, b.e)
            else:
                r = self.ptr_eq(a, b)
            return k(st, V(T_BOOL, r if op == "==" else NOT(r)))
        raise Unsupported("comparison %s of %r and %r" % (op, a, b))

    def binop(self, op, a, b, t, st, node, k):
        if op == "-" and isinstance(a, (It, Obj)) and isinstance(b, (It, Obj)) and type(a) is not type(b):
            # a position in a character range and a pointer into the same buffer
            x, y = [It(v.f["buf"].e, v.f["off"].e, False, None, T_CHAR) if isinstance(v, Obj) and v.ty.k == "ptr" else v for v in (a, b)]
            if isinstance(x, It) and isinstance(y, It) and not x.rev and not y.rev:
                return self.ob("(%s =~= %s)" % (x.seq, y.seq), "bounds", "subtracted character pointers belong to the same buffer", node,
                               k(st, V(T_I64, simp("(%s - %s)" % (x.pos, y.pos)))))
        if isinstance(a, It) and op in ("+", "-"):
            if isinstance(b, It):
                d = "(%s - %s)" % (a.pos, b.pos) if not a.rev else "(%s - %s)" % (b.pos, a.pos)
                return k(st, V(T_I64, simp(d)))
            n = self.num(b)
            return stl.it_add(self, a, n if op == "+" else "(-%s)" % atom(n), st, node, k)
        if isinstance(a, Obj) and a.ty.k == "ptr":
            if isinstance(b, Obj):
                return self.ob("(%s =~= %s)" % (a.f["buf"].e, b.f["buf"].e) if a.f["buf"].e != b.f["buf"].e else "true", "bounds", "subtracted character pointers belong to the same buffer", node,
                               k(st, V(T_I64, simp("(%s - %s)" % (a.f["off"].e, b.f["off"].e)))))
            o = mk_cp(a.f["null"].e, a.f["buf"].e, simp("(%s %s %s)" % (a.f["off"].e, op, self.num(b))))
            return self.ob(self.cp_ok(o), "bounds", "character pointer stays inside its buffer", node, k(st, o))
        if isinstance(a, V) and isinstance(b, V):
            x, y = self.num(a), self.num(b)
            if is_lit(x) and is_lit(y) and op in ("+", "-", "*"):
                return self.arith(t, intlit({"+": lit(x) + lit(y), "-": lit(x) - lit(y), "*": lit(x) * lit(y)}[op]), st, node, k)
            if op in ("+", "-", "*"):
                return self.arith(t, "(%s %s %s)" % (x, op, y), st, node, k)
            if op in ("/", "%"):
                lo = RANGE[t.name][0]
                ok = "(%s != 0)" % y
                if lo < 0:
                    ok = AND(ok, "!(%s == %s && %s == -1)" % (x, intlit(lo), y))
                fn = {"/": "cdiv", "%": "cmod"}[op]
                if lo == 0:
                    r = "(%s %s %s)" % (x, op, y)
                else:
                    r = "%s(%s, %s)" % (fn, x, y)
                return self.ob(ok, "overflow", "division is defined (no zero divisor, no overflow)", node, k(st, V(t, r)))
            if op in ("&", "|", "^", "<<", ">>"):
                if is_lit(x) and is_lit(y) and lit(x) >= 0 and lit(y) >= 0:
                    r = {"&": lit(x) & lit(y), "|": lit(x) | lit(y), "^": lit(x) ^ lit(y), "<<": lit(x) << lit(y), ">>": lit(x) >> lit(y)}[op]
                    return self.arith(t, intlit(r), st, node, k)
                if op == ">>" and is_lit(y) and 0 <= lit(y) < 31:
                    return k(st, V(t, "(%s / %d)" % (x, 2 ** lit(y))))       # rounds down, also for negative values
                if op == "<<" and is_lit(y) and 0 <= lit(y) < 31:
                    if t.name[0] == "i":
                        return self.ob("(0 <= %s)" % x, "shift", "a negative value is not shifted", node, self.arith(t, "(%s * %d)" % (x, 2 ** lit(y)), st, node, k))
                    return self.arith(t, "(%s * %d)" % (x, 2 ** lit(y)), st, node, k)
                if op == "&" and is_lit(y) and lit(y) < 0 and (-lit(y)) & (-lit(y) - 1) == 0 and t.name[0] == "i":
                    return k(st, V(t, "(%s - %s %% %d)" % (x, x, -lit(y))))
                if op == "&":
                    return k(st, V(t, "bitand_%s(%s, %s)" % (t.name, x, y)))
                if op == "|":
                    return k(st, V(t, "bitor_%s(%s, %s)" % (t.name, x, y)))
        raise Unsupported("operator %s on %r, %r" % (op, a, b))

    def x_CompoundAssignOperator(self, e, st, k):
        op = e["opcode"][:-1]
        a, b = e["inner"]
        rt = e.get("computeResultType") or e["type"]
        t = self.tu.ty(rt)
        def go(s, vb):
            def go2(s2, l):
                va = l.get(self, s2)
                at = va.ty
                def fin(s3, r):
                    if isinstance(r, V) and r.ty.k == "int" and at.k in ("int", "char"):
                        r = self.cast_int(r, at)
                    return self.assign(l, r, s3, lambda s4: k(s4, l))
                if isinstance(va, V) and va.ty.k in ("int", "char") and t.k == "int":
                    va = self.cast_int(va, t)
                return self.binop(op, va, vb, t, s2, e, fin)
            return self.lv(a, s, go2)
        return self.ev(b, st, go)

    def x_ConditionalOperator(self, e, st, k):
        c, a, b = e["inner"]
        if is_assert_fail(b) or is_assert_fail(a):
            def chk(s, v):
                cc = self.truth(v)
                if is_assert_fail(a):
                    cc = NOT(cc)
                return self.ob(cc, "assert", "assertion holds", e, k(s, V(T_VOID, "()")))
            return self.ev(c, st, chk)
        def go(s, vc):
            cc = self.truth(vc)
            if cc == "true":
                return self.x(a, s, k)
            if cc == "false":
                return self.x(b, s, k)
            ra = self.pure(lambda kk: self.ev(a, s, kk), s)
            rb = self.pure(lambda kk: self.ev(b, s, kk), s) if ra is not None else None
            if ra is not None and rb is not None:
                t = self.tu.ty(e)
                va, vb = self.coerce(ra[0], t), self.coerce(rb[0], t)
                v = self.join(cc, va, vb)
                if v is not None:
                    return self.guarded(ra[1], cc, self.guarded(rb[1], NOT(cc), k(s, v)))
            return If(cc, self.x(a, s, k), self.x(b, s, k))
        return self.ev(c, st, go)

    def coerce(self, v, t):
        if isinstance(v, V) and v.ty.k == "strlit" and t.k == "ptr":
            return lit_cp(v.e)
        if isinstance(v, V) and v.ty.k == "nullptr" and t.k in ("ptr", "uptr", "opt"):
            return self.null_of(t)
        return v

    # -------- casts
    def x_ImplicitCastExpr(self, e, st, k):
        ck = e["castKind"]
        a = e["inner"][0]
        t = self.tu.ty(e)
        if ck in ("LValueToRValue",):
            return self.ev(a, st, k)
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay"):
            if ck == "UserDefinedConversion":
                return self.x(a, st, lambda s, v: k(s, v))
            return self.x(a, st, k)
        if ck in ("IntegralCast", "IntegralToBoolean"):
            return self.ev(a, st, lambda s, v: k(s, self.cast_int(v, t)))
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return self.ev(a, st, lambda s, v: k(s, V(T_BOOL, self.truth(v))))
        if ck == "NullToPointer":
            if t.k == "nullptr":
                return k(st, V(t, "null"))
            try:
                return k(st, self.null_of(t))
            except Unsupported:
                return k(st, V(Ty("nullptr"), "null"))
        if ck == "ArrayToPointerDecay":
            def go(s, v):
                v = self.val(v, s)
                if isinstance(v, V) and v.ty.k == "strlit":
                    return k(s, lit_cp(v.e))
                return k(s, v)
            return self.x(a, st, go)
        if ck == "BitCast":
            return self.ev(a, st, lambda s, v: k(s, v))
        if ck == "ToVoid":
            return self.x(a, st, lambda s, v: k(s, V(T_VOID, "()")))
        raise Unsupported("cast " + ck)

    def x_CStyleCastExpr(self, e, st, k):
        return self.castexpr(e, st, k)

    def x_CXXStaticCastExpr(self, e, st, k):
        return self.castexpr(e, st, k)

    def x_CXXFunctionalCastExpr(self, e, st, k):
        return self.castexpr(e, st, k)

    def x_CXXConstCastExpr(self, e, st, k):
        return self.castexpr(e, st, k)

    def x_CXXReinterpretCastExpr(self, e, st, k):
        return self.castexpr(e, st, k)

    def castexpr(self, e, st, k):
        ck = e.get("castKind")
        a = e["inner"][0]
        t = self.tu.ty(e)
        if ck in ("NoOp", "ConstructorConversion", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueToRValue", "FunctionToPointerDecay"):
            return self.x(a, st, k)
        if ck in ("IntegralCast", "IntegralToBoolean"):
            return self.ev(a, st, lambda s, v: k(s, self.cast_int(v, t)))
        if ck == "PointerToBoolean":
            return self.ev(a, st, lambda s, v: k(s, V(T_BOOL, self.truth(v))))
        if ck == "ToVoid":
            return self.x(a, st, lambda s, v: k(s, V(T_VOID, "()")))
        if ck == "NullToPointer":
            return k(st, self.null_of(t))
        if ck == "BitCast":
            def go(s, v):
                if isinstance(v, Odd) and v.name == "voidp":
                    b = t.args[0]
                    want = {"kids": "GumboNode", "attrs": "GumboAttribute"}[v.d["kind"]]
                    if b.k == "g" and b.name == want:
                        return k(s, V(T_NODEP if want == "GumboNode" else T_ATTRP, v.d["e"]))
                    raise Unsupported("cast of a tree pointer to %r" % t)
                return k(s, v)
            return self.ev(a, st, go)
        raise Unsupported("cast " + str(ck))

    # -------- members
    def x_MemberExpr(self, e, st, k):
        if not e.get("inner"):
            raise Unsupported("static member")
        a = e["inner"][0]
        f = e.get("name", "")
        def go(s, l):
            return self.member(l, f, e, s, k)
        if e.get("isArrow"):
            def arrow(s, v):
                if is_lv(v) and not isinstance(v, (G, LRule)):
                    return self.deref_lv(v, s, e, go)
                return self.deref(v, s, e, go)
            return self.x(a, st, arrow)
        return self.lv(a, st, go)

    def member(self, l, f, e, st, k):
        if isinstance(l, LTmp) and isinstance(l.v, (G, LRule)):
            l = l.v
        if isinstance(l, G):
            return self.g_member(l, f, e, st, k)
        t = self.tu.ty(e)
        if isinstance(l, LRule):
            return k(st, self.rule_field(l, self.canon_field("Rule", f)))
        o = l.get(self, st)
        if isinstance(o, G):
            return self.g_member(o, f, e, st, k)
        if isinstance(o, LRule):
            return k(st, self.rule_field(o, self.canon_field("Rule", f)))
        if isinstance(o, V) and o.ty.k == "pair" or isinstance(o, V) and f in ("first", "second"):
            ty = o.ty.args[0 if f == "first" else 1] if o.ty.args else t
            return k(st, LTup(l, 0 if f == "first" else 1, ty))
        if isinstance(o, Odd):
            return stl.member_odd(self, l, o, f, e, st, k)
        if isinstance(o, Obj):
            if o.ty.k == "cls":
                f = self.canon_field(o.ty.name, f)
            if f not in o.f:
                raise Unsupported("field %s of %s" % (f, o.ty))
            if isinstance(o.f[f], Ref):
                return k(st, o.f[f].lv)
            return k(st, LFld(l, f, t.noref() if t.k != "other" else o.f[f].ty))
        if isinstance(o, V) and o.ty.k == "cls":
            f = self.canon_field(o.ty.name, f)
            u = self.unpack_obj(o)
            if f not in u.f:
                raise Unsupported("field %s of %s" % (f, o.ty))
            if o.ty.name in self.schema.REFS:
                raise Unsupported("reference member of a packed object")
            return k(st, LFld(l, f, u.f[f].ty))
        raise Unsupported("member %s of %r" % (f, o))

    def canon_field(self, cls, f):
        s = self.schema.classes.get(cls)
        if not s:
            return f
        m = self.fieldmaps.get(cls)
        if m is None:
            m = self.fieldmaps[cls] = self.schema.fieldmap(self.tu, cls)
        while f not in m and s.get("base"):
            cls = s["base"]
            s = self.schema.classes.get(cls) or {}
            m = self.fieldmaps.get(cls)
            if m is None:
                m = self.fieldmaps[cls] = self.schema.fieldmap(self.tu, cls)
        if f not in m:
            raise Unsupported("field %s of class %s is not in the schema" % (f, cls))
        return m[f]

    def rule_field(self, l, f):
        p = atom(l.p)
        if f == "first_child":
            return V(Ty("ruleuptr"), "r_child(%s)" % p)
        if f == "next":
            return V(Ty("ruleuptr"), "r_next(%s)" % p)
        if f == "nested":
            return V(Ty("rulevec"), p)
        ty = {"matches": Ty("vec", (Ty("uptr", (Ty("cls", name="Match"),)),)),
              "captures": Ty("vec", (Ty("uptr", (Ty("cls", name="Capture"),)),)),
              "tag": Ty("int", name="i32"), "is_optional": T_BOOL, "is_greedy": T_BOOL,
              "tagname": Ty("opt", (T_STR,))}[f]
        e = "r_%s(%s)" % (f, p)
        return LTmp(self.unpack(ty, e))

    G_FIELDS = {
        ("out", "root"): ("node", "out_root"),
        ("node", "type"): ("int", "n_type"), ("node", "parent"): ("node", "n_parent"),
        ("node", "index_within_parent"): ("u64", "n_index"),
        ("elem", "tag"): ("int", "n_tag"),
        ("attr", "name"): ("cp", "a_name"), ("attr", "value"): ("cp", "a_value"), ("attr", "attr_namespace"): ("int", "a_ns"),
        ("text", "text"): ("cp", "n_text"),
        ("doc", "has_doctype"): ("bool", "d_has_doctype"), ("doc", "name"): ("cp", "d_name"),
        ("doc", "public_identifier"): ("cp", "d_public"), ("doc", "system_identifier"): ("cp", "d_system"),
    }

    def g_member(self, g, f, e, st, k):
        p = atom(g.p)
        t = self.G_FIELDS.get((g.kind, f))
        if t:
            a = "%s(%s)" % (t[1], p)
            if t[0] == "int":
                return k(st, LTmp(self.unpack(T_U32, a)))
            if t[0] == "u64":
                return k(st, LTmp(self.unpack(T_U64, a)))
            if t[0] == "bool":
                return k(st, LTmp(V(T_BOOL, a)))
            if t[0] == "node":
                return k(st, LTmp(V(T_NODEP, a)))
            return k(st, LTmp(self.unpack(T_CP, a)))
        if g.kind == "node" and f == "v":
            return k(st, G("nodev", g.p))
        if g.kind == "nodev":
            kinds = {"element": ("elem", "is_elem"), "text": ("text", "is_text"), "document": ("doc", "is_doc")}
            if f in kinds:
                return self.ob("%s(%s)" % (kinds[f][1], p), "union", "node is read as the kind it is (%s)" % f, e, k(st, G(kinds[f][0], g.p)))
        if g.kind == "elem" and f in ("children", "attributes"):
            return k(st, G("gvec", g.p, "kids" if f == "children" else "attrs"))
        if g.kind == "doc" and f == "children":
            return k(st, G("gvec", g.p, "kids"))
        if g.kind == "elem" and f == "original_tag":
            return k(st, LTmp(Obj(Ty("cls", name="GumboStringPiece"),
                                  {"data": self.unpack(T_CP, "n_otag(%s)" % p), "length": self.unpack(T_U64, "n_otag_len(%s)" % p)})))
        if g.kind == "gvec":
            if f == "length":
                return k(st, LTmp(self.unpack(T_U32, "n_%s(%s)" % ({"kids": "nkids", "attrs": "nattrs"}[g.x], p))))
            if f == "data":
                return k(st, LTmp(Odd("gdata", {"p": g.p, "x": g.x})))
        raise Unsupported("member %s.%s" % (g.kind, f))

    def x_ArraySubscriptExpr(self, e, st, k):
        a, b = e["inner"]
        def go(s, va, vb):
            if isinstance(va, Odd) and va.name == "gdata":
                i = self.num(vb)
                p, xk = va.d["p"], va.d["x"]
                n = "n_%s(%s)" % ({"kids": "nkids", "attrs": "nattrs"}[xk], p)
                acc = "n_%s(%s, %s)" % ({"kids": "kid", "attrs": "attr"}[xk], p, i)
                return self.ob("(0 <= %s && %s < (%s as int))" % (i, i, n), "bounds", "index lies inside the node's %s array" % ("children" if xk == "kids" else "attributes"), e,
                               k(s, Odd("voidp", {"kind": xk, "e": acc})))
            if isinstance(va, Obj) and va.ty.k == "ptr":
                off = simp("(%s + %s)" % (va.f["off"].e, self.num(vb)))
                o = mk_cp(va.f["null"].e, va.f["buf"].e, off)
                return self.deref(o, s, e, k)
            if isinstance(va, V) and va.ty.k == "arr":
                i = self.num(vb)
                el = va.ty.args[0]
                return self.ob("(0 <= %s && %s < %s.len())" % (i, i, va.e), "bounds", "index lies inside the table", e,
                               k(s, V(el, "(%s[%s] as int)" % (va.e, i))))
            if isinstance(va, V) and va.ty.k == "strlit":
                return self.deref(mk_cp("false", va.e + ".push(0i8)", self.num(vb)), s, e, k)
            if isinstance(va, It):
                return stl.it_add(self, va, self.num(vb), s, e, lambda s2, it: stl.it_deref(self, it, s2, e, k))
            if isinstance(va, Odd):
                return stl.index_odd(self, va, vb, s, e, k)
            raise Unsupported("subscript of %r" % (va,))
        return self.ev(a, st, lambda s, va: self.ev(b, s, lambda s2, vb: go(s2, va, vb)))

    # -------- objects
    def x_InitListExpr(self, e, st, k):
        t = self.tu.ty(e)
        def go(s, vs):
            if t.k in ("int", "bool", "char") and len(vs) <= 1:
                return k(s, vs[0] if vs else self.zero(t))
            if t.k == "cls":
                return self.construct_agg(t, vs, s, e, k)
            if t.k == "ptr" and len(vs) <= 1:
                return k(s, vs[0] if vs else self.null_of(t))
            if t.k in ("vec", "arr"):
                return k(s, V(Ty("vec", t.args), "seq![%s]" % ", ".join(self.pack(v, t.args[0]) for v in vs)))
            raise Unsupported("init list %r" % t)
        return self.evs(e.get("inner", []), st, go)

    def construct_agg(self, t, vs, st, node, k):
        s = self.schema.classes.get(t.name)
        if not s or "fields" not in s:
            raise Unsupported("aggregate " + t.name)
        f = {}
        for (n, ty), v in zip(s["fields"], vs):
            f[n] = v
        for n, ty in s["fields"][len(vs):]:
            f[n] = self.zero(ty)
        return k(st, Obj(t, f))

    def x_CXXConstructExpr(self, e, st, k):
        t = self.tu.ty(e)
        args = [a for a in e.get("inner", []) if a.get("kind") != "CXXDefaultArgExpr"]
        if t.k == "cls" and t.name in self.tu.records or t.k == "cls" and t.name in self.schema.classes:
            return self.xs([a for a in args], st, lambda s, vs: self.construct(t, vs, s, e, k, args))
        return self.xs([a for a in args], st, lambda s, vs: stl.construct(self, t, vs, s, e, k))

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_CXXDefaultArgExpr(self, e, st, k):
        raise Unsupported("default argument outside a known call")

    def x_CXXThrowExpr(self, e, st, k):
        # handled through the statement continuation stack
        t = self.tu.ty(e["inner"][0]) if e.get("inner") else None
        name = t.name.split("::")[-1] if t is not None else ""
        a = e["inner"][0]
        while a.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr", "MaterializeTemporaryExpr", "ImplicitCastExpr"):
            a = a["inner"][0]
        args = a.get("inner", []) if a.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr") else []
        handler = self.throw_k
        def go(s, vs):
            return handler(s, name, vs)
        return self.evs(args, st, go)

    throw_k = None

    def record(self, name):
        r = self.tu.records.get(name)
        if not r:
            raise Unsupported("record " + name)
        return r

    def construct(self, t, vs, st, node, k, argnodes=()):
        """Constructor call of a hext class."""
        name = t.name
        ctype = (node.get("ctorType") or {}).get("qualType") if node else None
        if name not in self.tu.records:
            # foreign class known to the schema (e.g. GumboStringPiece)
            s = self.schema.classes[name]
            if not vs:
                return k(st, Obj(t, {n: self.fresh(ty, "u") for n, ty in s["fields"]}))
            if len(vs) == 1:
                return k(st, self.val(vs[0], st))
            raise Unsupported("construct " + name)
        rec = self.record(name)
        # copy / move
        if len(vs) == 1 and self.same_class(vs[0], t, st):
            ctor = self.find_copy_ctor(rec, name, "&&" in (ctype or ""))
            return self.copy_construct(t, rec, vs[0], ctor, st, node, k, move="&&" in (ctype or ""))
        ctor = self.find_ctor(rec, ctype, vs, argnodes)
        src = life.place_of([self.val(v, st) for v in vs]) if life.is_doc(t) else None
        if src is not None:
            def made(s, o):
                w = self.val(o, s)
                if isinstance(w, Obj):
                    w.src = src
                return k(s, o)
            return self.run_ctor(t, rec, ctor, vs, st, node, made, argnodes)
        return self.run_ctor(t, rec, ctor, vs, st, node, k, argnodes)

    def same_class(self, v, t, st):
        if isinstance(v, (G,)):
            return False
        w = v if isinstance(v, LRule) else self.val(v, st)
        if isinstance(w, LRule):
            return t.name == "Rule"
        return getattr(w, "ty", None) is not None and w.ty.k == "cls" and w.ty.name == t.name

    def ctors(self, rec):
        r = []
        for m in rec.get("inner", []):
            if m.get("kind") == "CXXConstructorDecl":
                r.append(m)
        return r

    def find_copy_ctor(self, rec, name, move):
        for c in self.ctors(rec):
            q = c["type"]["qualType"]
            ps = [p for p in c.get("inner", []) if p.get("kind") == "ParmVarDecl"]
            if len(ps) != 1:
                continue
            pt = ps[0]["type"]["qualType"]
            isself = re.match(r"^(const )?(hext::|htmlext::)?%s(<.*>)? ?(&|&&)$" % re.escape(name), pt)
            if isself and (("&&" in pt) == move):
                return c
        return None

    def find_ctor(self, rec, ctype, vs, argnodes=()):
        cands = []
        for c in self.ctors(rec):
            if ctype and c["type"]["qualType"].replace("hext::", "") == ctype.replace("hext::", ""):
                return c
            ps = [p for p in c.get("inner", []) if p.get("kind") == "ParmVarDecl"]
            need = sum(1 for p in ps if not p.get("init"))
            if need <= len(vs) <= len(ps) and not c.get("isImplicit"):
                cands.append((c, ps))
        if len(cands) > 1:
            good = []
            for c, ps in cands:
                if all(self.arg_fits(v, self.tu.ty(p)) for v, p in zip(vs, ps)):
                    good.append((c, ps))
            cands = good or cands
        if len(cands) == 1:
            return cands[0][0]
        if not cands and not vs:
            for c in self.ctors(rec):
                if c.get("isImplicit") and not any(p.get("kind") == "ParmVarDecl" for p in c.get("inner", [])):
                    return c
        raise Unsupported("constructor of %s (%s)" % (rec.get("name"), ctype))

    def arg_fits(self, v, t):
        vt = getattr(v, "ty", None)
        if vt is None:
            return True
        if vt.k == t.k:
            if vt.k == "cls":
                return vt.name == t.name
            return True
        if t.k == "str":
            return vt.k in ("strlit", "sv", "str", "ptr")
        if t.k == "uptr":
            return vt.k in ("uptr", "nullptr")
        if t.k in ("int", "bool", "char"):
            return vt.k in ("int", "bool", "char")
        return False

    def fn_def(self, decl):
        i = decl["id"]
        c = self.tu.canon.get(i, i)
        return self.tu.fdefs.get(c)

    def bases(self, rec):
        r = []
        for b in rec.get("bases", []):
            q = b["type"].get("desugaredQualType") or b["type"]["qualType"]
            r.append(q)
        return r

    def base_state_class(self, name):
        """hext base class that carries fields (only StringPipe does)."""
        s = self.schema.classes.get(name, {})
        b = s.get("base")
        while b:
            sb = self.schema.classes.get(b, {})
            if sb.get("statefields"):
                return b
            b = sb.get("base")
        return None

    def all_fields(self, cls):
        s = self.schema.classes[cls]
        r = list(s.get("fields", [])) + list(s.get("ghost", []))
        b = self.base_state_class(cls)
        if b:
            r += [x for x in self.schema.classes[b]["statefields"] if x not in r]
        return r

    def copy_construct(self, t, rec, src, ctor, st, node, k, move=False):
        d = self.fn_def(ctor) if ctor is not None else None
        if isinstance(src, LRule) or isinstance(self.val(src, st), LRule):
            raise Unsupported("copy of a rule reached through a const pointer")
        if d is not None and body_of(d) is not None and not ctor.get("explicitlyDefaulted") and not d.get("explicitlyDefaulted") and not d.get("isImplicit") and not ctor.get("isImplicit"):
            c = self.contract_for(d)
            if c is not None:
                return self.call_contract(c, d, None, [src], st, node, k)
            return self.run_ctor(t, rec, ctor, [src], st, node, k)
        # defaulted: memberwise
        v = self.val(src, st)
        if move:
            return self.move_from(src, st, k)
        return self.copy_fields(t, v, st, node, k)

    def copy_fields(self, t, v, st, node, k):
        o = self.unpack_obj(v) if isinstance(v, V) else v
        # a unique_ptr member makes the implicit copy constructor deleted (compiler enforces it)
        basecls = self.base_state_class(t.name)
        if basecls:
            # base sub-object through the base class's copy constructor
            brec = self.record(basecls)
            bc = self.find_copy_ctor(brec, basecls, False)
            bty = Ty("cls", name=basecls)
            bfields = [n for n, _ in self.schema.classes[basecls]["statefields"]]
            bobj = Obj(bty, {n: o.f[n] for n in bfields})
            def fin(s, nb):
                f = dict(o.f)
                for n in bfields:
                    f[n] = nb.f[n]
                return k(s, Obj(t, f))
            return self.copy_construct(bty, brec, LTmp(bobj), bc, st, node, lambda s, nb: fin(s, self.val(nb, s)))
        return k(st, Obj(t, o.f))

    def moved_out(self, v):
        """state of a moved-from value"""
        if isinstance(v, V):
            if v.ty.k == "uptr":
                return self.null_of(v.ty)
            if v.ty.k == "vec" or v.ty.k == "mmap":
                return V(v.ty, "Seq::<%s>::empty()" % self.vt(v.ty)[4:-1])
            if v.ty.k == "str":
                return self.fresh(v.ty, "moved")
            if v.ty.k in ("int", "bool", "char"):
                return v
            if v.ty.k == "cls":
                o = self.unpack_obj(v)
                return self.moved_out(o)
            return self.fresh(v.ty, "moved")
        if isinstance(v, Obj):
            if v.ty.k == "ptr":
                return v
            return Obj(v.ty, {n: self.moved_out(x) for n, x in v.f.items()})
        return v

    def move_from(self, src, st, k):
        v = self.val(src, st)
        if is_lv(src) and not isinstance(src, LTmp) and isinstance(v, (V, Obj)) and not (isinstance(v, V) and v.ty.k in ("int", "bool", "char", "ptr")):
            return k(src.set(self, st, self.moved_out(v)), v)
        return k(st, v)

    def run_ctor(self, t, rec, ctor, vs, st, node, k, argnodes=()):
        d = self.fn_def(ctor)
        for i, (p, v) in enumerate(zip(self.parms(d) if d is not None else (), vs)):
            # a unique_ptr taken by value is moved out of its source
            if self.tu.ty(p).k == "uptr" and not self.tu.ty(p).ref and isinstance(v, LVALS) and not isinstance(v, LTmp):
                return self.move_from(v, st, lambda s, w: self.run_ctor(t, rec, ctor, list(vs[:i]) + [w] + list(vs[i + 1:]), s, node, k, argnodes))
        if d is None:
            if ctor is not None and (ctor.get("explicitlyDefaulted") or ctor.get("isImplicit")) and not vs:
                return self.default_fields(t, st, node, k)
            c = self.contract_by_name(self.tu.qname.get(ctor["id"]), ctor, None, vs) if ctor is not None else None
            if c is not None and len(vs) == len(c.params):
                return self.call_contract(c, ctor, None, vs, st, node, k)
            raise Unsupported("constructor body of " + t.name)
        c = self.contract_for(d)
        if c is not None:
            if len(vs) < len(self.parms(d)):
                p = self.default_parm(d, len(vs))
                if p is not None:
                    return self.x(p, st, lambda s, v: self.run_ctor(t, rec, ctor, list(vs) + [v], s, node, k, argnodes))
            if not c.inline:
                return self.call_contract(c, d, None, vs, st, node, k)
        return self.exec_ctor(t, rec, d, vs, st, node, k)

    def default_fields(self, t, st, node, k):
        s = self.schema.classes.get(t.name)
        if not s:
            raise Unsupported("default construct " + t.name)
        f = {}
        for n, ty in s["fields"]:
            f[n] = stl.default_value(self, ty)
        return k(st, Obj(t, f))

    def exec_ctor(self, t, rec, d, vs, st, node, k):
        """member initialisers, then the body; returns the object"""
        self.enter(d)
        inits = [c for c in d.get("inner", []) if c.get("kind") == "CXXCtorInitializer"]
        key = "obj:" + self.tmpname("o")
        s_cls = self.schema.classes.get(t.name)
        if not s_cls:
            raise Unsupported("class " + t.name)
        outer = st
        def bound(s):
            s = s.put(key, Obj(t, {}))
            s = s.put("this", Ptr(LKey(key, t), "true", Ty("ptr", (t,))))
            return do_inits(inits, s)
        def do_inits(rest, s):
            if not rest:
                # fields without initialiser: default
                o = s.env[key]
                f = dict(o.f)
                for n, ty in s_cls["fields"]:
                    if n not in f:
                        f[n] = stl.default_value(self, ty) if ty.k not in ("int", "bool", "char", "ptr") else self.fresh(ty, "uninit")
                s = s.put(key, Obj(t, f))
                body = body_of(d)
                def done(s2, v=None):
                    res = s2.env[key]
                    self_ = self.leave_env(outer, s2)
                    return k(self_, res)
                return self.exec_body(body, s, done, d)
            i = rest[0]
            inner = i["inner"][0] if i.get("inner") else None
            if i.get("anyInit"):
                f = self.canon_field(t.name, i["anyInit"]["name"])
                fty = self.tu.ty(i["anyInit"])
                if inner is not None and inner.get("kind") == "CXXDefaultInitExpr":
                    fd = self.tu.byid.get(i["anyInit"]["id"]) or {}
                    es = [c for c in fd.get("inner", []) if "kind" in c and c["kind"].endswith(("Expr", "Literal", "Operator"))]
                    if not es:
                        raise Unsupported("default member initialiser")
                    inner = es[0]
                def go(s2, v):
                    o = s2.env[key]
                    n = Obj(o.ty, o.f)
                    if isinstance(v, V) and v.ty.k == "nullptr":
                        v = self.null_of(fty)
                    n.f[f] = v
                    return do_inits(rest[1:], s2.put(key, n))
                if fty.ref and t.name in self.schema.REFS:
                    return self.x(inner, s, lambda s2, l: go(s2, Ref(l)))
                return self.ev(inner, s, go)
            if i.get("baseInit") is not None:
                # base class: state-carrying base only
                bt = self.tu.ty(i["baseInit"])
                bname = self.base_state_class(t.name)
                if bname is None:
                    return do_inits(rest[1:], s)
                return self.base_ctor(bname, inner, s, lambda s2, fs: do_inits(rest[1:], s2.put(key, Obj(t, dict(s2.env[key].f, **fs)))))
            if i.get("delegatingInit"):
                def gd(s2, v):
                    return do_inits(rest[1:], s2.put(key, Obj(t, v.f)))
                return self.ev(inner, s, gd)
            raise Unsupported("initialiser")
        return self.bind_params(d, vs, st, node, bound)

    def base_ctor(self, bname, inner, st, k):
        """state-carrying base: default or copy constructed"""
        bty = Ty("cls", name=bname)
        args = inner.get("inner", []) if inner is not None else []
        brec = self.record(bname)
        if not args:
            for c in self.ctors(brec):
                ps = [p for p in c.get("inner", []) if p.get("kind") == "ParmVarDecl"]
                if not ps and not c.get("isImplicit"):
                    d = self.fn_def(c)
                    if d is not None:
                        return self.exec_ctor(bty, brec, d, [], st, inner, lambda s, o: k(s, o.f))
            return k(st, {n: stl.default_value(self, ty) for n, ty in self.schema.classes[bname]["statefields"]})
        def go(s, vs):
            bfields = [n for n, _ in self.schema.classes[bname]["statefields"]]
            o = self.val(vs[0], s)
            o = self.unpack_obj(o) if isinstance(o, V) else o
            bobj = Obj(bty, {n: o.f[n] for n in bfields})
            bc = self.find_copy_ctor(brec, bname, False)
            return self.copy_construct(bty, brec, LTmp(bobj), bc, s, inner, lambda s2, nb: k(s2, self.val(nb, s2).f))
        return self.xs(args, st, go)

    # -------- scopes
    def enter(self, d):
        i = self.tu.canon.get(d["id"], d["id"])
        self.depth += 1
        if self.depth > 20000:
            raise Unsupported("inlining too deep (recursion without a contract?) at " + d.get("name", ""))

    def leave_env(self, outer, inner):
        """drop callee-local bindings, keep mutations of caller-visible ones"""
        env = {}
        for kk in outer.env:
            env[kk] = inner.env[kk]
        if "this" in outer.env:
            env["this"] = outer.env["this"]
        elif "this" in env:
            del env["this"]
        for kk, v in inner.env.items():
            if isinstance(kk, str) and kk.startswith(("tmp:", "ghost:")) and kk not in env:
                env[kk] = v
        return State(env)

    def parms(self, d):
        return [p for p in d.get("inner", []) if p.get("kind") == "ParmVarDecl"]

    def bind_params(self, d, vs, st, node, k):
        ps = self.parms(d)
        if len(vs) < len(ps):
            # default arguments
            i = len(vs)
            p = self.default_parm(d, i)
            if p is None:
                raise Unsupported("missing argument of " + d.get("name", ""))
            return self.x(p, st, lambda s, v: self.bind_params(d, list(vs) + [v], s, node, k))
        if len(vs) > len(ps):
            raise Unsupported("too many arguments for " + d.get("name", ""))
        s = st
        for p, v in zip(ps, vs):
            t = self.tu.ty(p)
            if t.ref and is_lv(v):
                s = s.put(p["id"], Ref(v))
            elif t.ref:
                s = s.put(p["id"], v)
            else:
                w = self.val(v, s)
                w = self.coerce(w, t)
                if isinstance(w, V) and w.ty.k == "strlit" and t.k in ("str", "sv"):
                    w = V(t, w.e)
                s = s.put(p["id"], w)
        return k(s)

    def default_parm(self, d, i):
        seen, n = set(), d
        c = self.tu.canon.get(d["id"], d["id"])
        for m in self.tu.byid.values():
            if m.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl") and self.tu.canon.get(m["id"]) == c:
                ps = self.parms(m)
                if i < len(ps) and ps[i].get("inner"):
                    es = [q for q in ps[i]["inner"] if "kind" in q and not q["kind"].endswith("Comment") and not q["kind"].endswith("Attr")]
                    if es:
                        return es[0]
        return None

    # ------------------------------------------------------------ calls
    def args_of(self, e, d, es):
        """argument expressions, default ones resolved"""
        r = []
        for i, a in enumerate(es):
            if a.get("kind") == "CXXDefaultArgExpr":
                p = self.default_parm(d, i) if d is not None else None
                if p is None:
                    r.append(None)
                    continue
                a = p
            r.append(a)
        return r

    def x_CallExpr(self, e, st, k):
        callee = self.unparen_callee(e["inner"][0])
        args = e["inner"][1:]
        if callee.get("kind") == "DeclRefExpr" and callee["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            d = callee["referencedDecl"]
            n = self.fn_def(d)
            if n is not None or d["id"] in self.tu.canon and self.tu.qname.get(d["id"], "").startswith(("hext::", "htmlext::")):
                if n is None:
                    c = self.contract_by_name(self.tu.qname.get(d["id"]))
                    if c is None:
                        raise Unsupported("no body and no contract: " + d["name"])
                    n = self.tu.byid[self.tu.canon.get(d["id"], d["id"])]
                args = self.args_of(e, n, args)
                return self.xs(args, st, lambda s, vs: self.call(n, None, vs, s, e, k))
            args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            return stl.call(self, d["name"], args, st, e, k)
        # call through a value (function object, lambda, function pointer)
        return self.x(e["inner"][0], st, lambda s, f: self.xs(args, s, lambda s2, vs: self.call_value(self.val(f, s2), vs, s2, e, k)))

    def unparen_callee(self, c):
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr") and c.get("inner"):
            c = c["inner"][0]
        return c

    def call_value(self, f, vs, st, node, k):
        if isinstance(f, FnRef):
            n = self.fn_def(f.decl)
            if n is None:
                raise Unsupported("call through pointer to " + f.decl.get("name", ""))
            return self.call(n, None, vs, st, node, k)
        if isinstance(f, Lam):
            return self.call_lambda(f, vs, st, node, k)
        if isinstance(f, V) and f.ty.k == "fn":
            a = self.val(vs[0], st)
            arg = self.pack(a)
            if self.vt(f.ty) == "FnV":
                return self.ob(self.truth(f), "null", "std::function is not empty when called", node,
                               k(st, V(T_STR, "fn_call(%s, %s)" % (f.e, arg))))
            return self.ob(self.truth(f), "null", "std::function is not empty when called", node,
                           k(st, V(T_BOOL, "mfn_call(%s, %s)" % (f.e, arg))))
        raise Unsupported("call of %r" % (f,))

    def call_lambda(self, f, vs, st, node, k):
        m = f.node
        s = st
        env = dict(s.env)
        for kk, v in f.snap.items():
            env[kk] = v
        if f.this is not None:
            env["this"] = f.this
        s = State(env)
        body = body_of(m)
        def bound(s2):
            def leave(s3, v):
                s4 = self.leave_env(st, s3)
                for kk in f.snap:
                    if kk in st.env:
                        s4 = s4.put(kk, st.env[kk])
                return k(s4, v)
            return self.exec_body(body, s2, leave, m)
        return self.bind_params(m, vs, s, node, bound)

    def x_LambdaExpr(self, e, st, k):
        rec = e["inner"][0]
        op = None
        for m in rec.get("inner", []):
            if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                op = m
            if m.get("kind") == "FunctionTemplateDecl" and m.get("name") == "operator()":
                inst = [x for x in m["inner"] if x.get("kind") == "CXXMethodDecl" and x.get("name") == "operator()" and body_of(x) is not None and not re.search(r"\bauto\b|type-parameter", x["type"]["qualType"])]
                if len(inst) == 1:
                    op = inst[0]
        if op is None:
            raise Unsupported("generic lambda")
        op = dict(op)
        if body_of(op) is None:
            b = [c for c in e["inner"] if c.get("kind") == "CompoundStmt"]
            op["inner"] = list(op.get("inner", [])) + b
        # captures by value are read at creation, by reference at the call
        fields = [m for m in rec.get("inner", []) if m.get("kind") == "FieldDecl"]
        inits = [c for c in e["inner"][1:] if c.get("kind") != "CompoundStmt"]
        if len(fields) != len(inits):
            raise Unsupported("lambda captures")
        snap = {}
        for fd, c in zip(fields, inits):
            byref = fd["type"]["qualType"].rstrip().endswith("&")
            r = c
            while r.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr", "ParenExpr") and len(r.get("inner", [])) == 1:
                r = r["inner"][0]
            if r.get("kind") == "CXXThisExpr":
                continue
            if r.get("kind") != "DeclRefExpr":
                if byref:
                    continue
                raise Unsupported("lambda capture with initializer")
            if not byref:
                kk = r["referencedDecl"]["id"]
                v = st.env.get(kk)
                if v is None:
                    continue
                if isinstance(v, Ref):
                    v = v.lv.get(self, st)
                snap[kk] = v
        return k(st, Lam(op, snap, st.env.get("this")))

    def x_CXXMemberCallExpr(self, e, st, k):
        callee = e["inner"][0]
        while callee.get("kind") in ("ParenExpr",):
            callee = callee["inner"][0]
        args = e["inner"][1:]
        if callee.get("kind") != "MemberExpr":
            raise Unsupported("member call through " + callee.get("kind", ""))
        obj = callee["inner"][0]
        name = callee.get("name", "")
        if name.startswith("operator ") or name == "operator bool":
            def conv(s, v):
                w = self.val(v, s)
                if name == "operator bool":
                    return k(s, V(T_BOOL, self.truth(w)))
                return k(s, stl.convert(self, w, self.tu.ty(e)))
            if callee.get("isArrow"):
                return self.x(obj, st, lambda s, v: self.deref(self.val(v, s), s, e, conv))
            return self.x(obj, st, conv)
        mid = callee.get("referencedMemberDecl")
        mdecl = self.tu.byid.get(mid)
        def with_obj(s, l):
            cls = self.class_of_lv(l, s)
            if mdecl is not None and cls is not None:
                d = self.tu.fdefs.get(self.tu.canon.get(mid, mid))
                ar = self.args_of(e, d or mdecl, args)
                return self.xs(ar, s, lambda s2, vs: self.method(mdecl, d, l, vs, s2, e, k, callee))
            ar = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            return stl.method(self, name, l, ar, s, e, k)
        if callee.get("isArrow"):
            def arrow(s, v):
                if is_lv(v) and not isinstance(v, (G, LRule)):
                    return self.deref_lv(v, s, e, with_obj)
                return self.deref(v, s, e, with_obj)
            return self.x(obj, st, arrow)
        return self.lv(obj, st, with_obj)

    def class_of_lv(self, l, st):
        if isinstance(l, LRule):
            return "Rule"
        v = self.val(l, st)
        if isinstance(v, LRule):
            return "Rule"
        if isinstance(v, (V, Obj)) and v.ty.k == "cls" and (v.ty.name in self.tu.records or v.ty.name in self.schema.classes):
            return v.ty.name
        return None

    def method(self, mdecl, d, l, vs, st, node, k, callee=None):
        cls = self.class_of_lv(l, st)
        name = mdecl.get("name")
        base = self.schema.virtual(cls, name) if mdecl.get("virtual") or self.schema.virtual(cls, name) else None
        if base is not None:
            return self.schema.virtual_call(self, base, name, l, vs, st, node, k)
        if d is None:
            c = self.contract_by_name(self.tu.qname.get(mdecl["id"]), mdecl, l, vs)
            if c is not None:
                return self.call_contract(c, mdecl, l, vs, st, node, k)
            raise Unsupported("method without body: " + name)
        return self.call(d, l, vs, st, node, k)

    def contract_for(self, d, this=None, vs=()):
        q = self.tu.qname.get(self.tu.canon.get(d["id"], d["id"])) or self.tu.qname.get(d["id"])
        return self.contract_by_name(q, d, this, vs)

    def contract_by_name(self, q, d=None, this=None, vs=()):
        c = self.contracts.get(q)
        for x in (c if isinstance(c, list) else [c] if c is not None else []):
            if d is None or x.sig is None or re.search(x.sig, d["type"]["qualType"]):
                same = bool(x.params) and is_lv(this) and any(is_lv(v) and not isinstance(v, (G, LRule)) and v.key() == this.key() for v in vs)
                if bool(x.alias) == same:
                    return x
        return None

    def call(self, d, this, vs, st, node, k):
        c = self.contract_for(d, this, vs)
        if c is not None and not c.inline:
            if len(vs) < len(self.parms(d)):
                p = self.default_parm(d, len(vs))
                if p is not None:
                    return self.x(p, st, lambda s, v: self.call(d, this, list(vs) + [v], s, node, k))
            return self.call_contract(c, d, this, vs, st, node, k)
        return self.inline(d, this, vs, st, node, k)

    def inline(self, d, this, vs, st, node, k):
        self.enter(d)
        q = self.tu.qname.get(d["id"], d.get("name"))
        if self.stack.count(d["id"]) > 0:
            raise Unsupported("recursion without a contract: " + str(q))
        self.inlined.add(q)
        body = body_of(d)
        if body is None:
            raise Unsupported("no body: " + str(q))
        outer = st
        def bound(s):
            if this is not None:
                s = s.put("this", V(T_RULEP, this.p) if isinstance(this, LRule) else Ptr(this, "true", Ty("ptr", (this.ty or Ty("other"),))))
            self.stack.append(d["id"])
            def done(s2, v):
                # leave the frame while the continuation runs, re-enter for sibling paths
                top = self.stack.pop()
                r = k(self.leave_env(outer, s2), v)
                self.stack.append(top)
                return r
            r = self.exec_body(body, s, done, d)
            self.stack.pop()
            return r
        if not self.nolet:
            r = self.pure(lambda kk: self._inline_pure(d, this, vs, outer, node, kk, body), outer)
            if r is not None and r[0] is not None:
                return self.guarded(r[1], "true", k(outer, r[0]))
        return self.bind_params(d, vs, st, node, bound)

    def _inline_pure(self, d, this, vs, st, node, kk, body):
        def bound(s):
            if this is not None:
                s = s.put("this", V(T_RULEP, this.p) if isinstance(this, LRule) else Ptr(this, "true", Ty("ptr", (this.ty or Ty("other"),))))
            self.stack.append(d["id"])
            r = self.exec_body(body, s, lambda s2, v: kk(self.leave_env(st, s2), v), d)
            self.stack.pop()
            return r
        return self.bind_params(d, vs, st, node, bound)

    def exec_body(self, body, st, done, d):
        rty = self.ret_type(d)
        def ret(s, v):
            if rty.ref == "&" and is_lv(v):
                return done(s, v)
            return done(s, self.ret_conv(self.val(v, s), rty))
        if body.get("kind") == "CXXTryStmt":
            raise Unsupported("function try block")
        # flowing off the end of main returns 0
        end = V(T_INT, "0") if d.get("name") == "main" and rty.k == "int" else V(T_VOID, "()")
        return self.s(body, st, K(lambda s: done(s, end), ret=ret, thr=None))

    def ret_type(self, d):
        if d.get("kind") in ("CXXConstructorDecl", "CXXDestructorDecl"):
            return T_VOID
        q = d["type"]["qualType"]
        if " -> " in q:
            return self.tu.ty(q.split(" -> ")[-1].strip())
        depth = 0
        for i, ch in enumerate(q):
            if ch == "<":
                depth += 1
            elif ch == ">":
                depth -= 1
            elif ch == "(" and depth == 0:
                q = q[:i].strip()
                break
        return self.tu.ty(q)

    def ret_conv(self, v, t):
        v = self.coerce(v, t)
        if isinstance(v, V) and v.ty.k == "strlit" and t.k in ("str", "sv"):
            return V(t, v.e)
        return v

    # ------------------------------------------------------------ contracts
    def subst(self, expr, m):
        def rep(x):
            n, rest = x.group(1), ""
            while n not in m and "." in n:
                n, _, r = n.rpartition(".")
                rest = "." + r + rest
            if n not in m:
                raise Unsupported("contract of %s refers to $%s" % (self.fname, n))
            v = m[n]
            return (v() if callable(v) else v) + rest
        r = re.sub(r"\$([A-Za-z_][\w.]*)", rep, expr)
        if "cstr(" in r:
            # the characters of a literal
            r = re.sub(r"cstr\(\(?CP\{null: false, buf: (seq!\[((?!\b0i8)[^\]])*\])\.push\(0i8\), off: 0\}\)?\)", r"\1", r)
        return strlits(r) if 'S!("' in r else r

    def term(self, v, st):
        """term of a value for contract expressions (ints as int, objects packed)"""
        v = self.val(v, st) if is_lv(v) and not isinstance(v, (G, LRule)) else v
        if isinstance(v, V):
            if v.ty.k == "int":
                return v.e if re.match(r"^[\w.]+$|^\(.*\)$", v.e) else "(%s)" % v.e
            return atom(v.e)
        return atom(self.pack(v))

    def argmap(self, c, d, this, vs, st):
        m = {}
        ps = self.parms(d)
        for i, n in enumerate(c.params):
            if i >= len(vs):
                raise Unsupported("contract %s: argument %d" % (c.name, i))
            v = vs[i]
            t = self.tu.ty(ps[i]) if i < len(ps) else None
            w = self.val(v, st) if is_lv(v) and not isinstance(v, (G, LRule)) else v
            if isinstance(w, It) and w.elty == T_CP and not w.rev:
                # the arguments of the program
                m[n] = w.seq if w.pos == "0" else "%s.subrange(%s, %s.len() as int)" % (w.seq, w.pos, w.seq)
                continue
            if t is not None:
                w = self.coerce(w, t)
                if isinstance(w, V) and w.ty.k == "strlit":
                    w = V(T_STR, w.e)
            m[n] = (lambda w=w: self.term(w, st))
        if this is not None:
            if isinstance(this, LRule):
                m["this"] = atom(this.p)
                for f in ("matches", "captures", "tag", "is_optional", "is_greedy", "tagname"):
                    m["this." + f] = ("(r_%s(%s) as int)" if f == "tag" else "r_%s(%s)") % (f, atom(this.p))
            else:
                o = self.val(this, st)
                if isinstance(o, (Obj, V)) and o.ty.k == "cls":
                    m["this"] = (lambda: atom(self.pack(o)))
                    try:
                        oo = self.unpack_obj(o) if isinstance(o, V) else o
                        for n, v in oo.f.items():
                            m["this." + n] = (lambda v=v: self.term(v, st))
                    except Unsupported:
                        pass
        return m

    def call_contract(self, c, d, this, vs, st, node, k):
        self.called.add(c.name)
        if c.assumed:
            self.assumes.add("%s: %s" % (c.name, c.assumed))
        if c.this == "ptr" and this is not None and not isinstance(this, LRule):
            w = self.val(this, st)
            if isinstance(w, (V, Obj)) and w.ty.k == "cls" and w.ty.name == "Rule":
                # the tree that was built, as the functions that match it see it
                self.assumes.add("a rule that was built by the parser and the same rule as it is matched are related by a function of the tree")
                p_ = "rule_at(%s)" % self.pack(w)
                self_, this = self, LRule(p_)
                code = self.call_contract(c, d, this, vs, st, node, k)
                return Assume("!(%s is Null)" % p_, code)
        m = self.argmap(c, d, this, vs, st)
        for g in c.ghost:
            if st.env.get("ghost:" + g) is None:
                raise Unsupported("%s is called outside the functions that track documents" % c.name)
            m[g] = st.env["ghost:" + g].e
        rty = self.ret_type(d)
        s = st
        asserts = []
        for rq in c.requires:
            asserts.append((self.subst(rq, m), Obl("requires", "precondition of %s: %s" % (c.name, rq), (line_of(node) if node else 0), self.fname)))
        for p, v in zip(self.parms(d), vs):
            t = self.tu.ty(p)
            w = self.val(v, st) if not isinstance(v, (G, LRule)) else v
            if t.k == "ptr" and t.args[0].k == "char" and isinstance(w, Obj):
                asserts.append((stl.cp_wf(w), Obl("requires", "argument of %s is a valid character pointer" % c.name, (line_of(node) if node else 0), self.fname)))
        if c.scc and self.cur is not None and self.cur.scc == c.scc and c.sdecr:
            asserts.append(("decreases_to!(%s => %s)" % (self.subst(self.cur.sdecr, self.curargs), self.subst(c.sdecr, m)),
                            Obl("decreases", "recursion into %s is on a strictly smaller object" % c.name, (line_of(node) if node else 0), self.fname)))
        elif c.scc and self.cur is not None and self.cur.scc == c.scc:
            asserts.append((lex_less([self.subst(x, m) for x in c.decr], [self.subst(x, self.curargs) for x in self.cur.decr]),
                            Obl("decreases", "recursion into %s terminates (measure decreases)" % c.name, (line_of(node) if node else 0), self.fname)))
        # hints: proof statements
        hints = [self.subst(h, m) for h in c.call_hints]
        # effects
        ranges = []

        def fin(s):
            ns = s
            del ranges[:]
            for n, ex in c.out.items():
                if n in c.ghost:
                    ns = ns.put("ghost:" + n, V(T_OUTSET, atom(self.subst(ex, m))) if ex is not None else self.fresh(T_OUTSET, n))
                    continue
                if ex is None and n.startswith("this"):
                    lv_ = this if n == "this" else LFld(this, n[5:], None)
                    ns = lv_.set(self, ns, self.fresh(lv_.get(self, ns).ty, "out"))
                    continue
                if n == "this":
                    t = this.ty if this.ty is not None and this.ty.k == "cls" else self.val(this, s).ty
                    ns = this.set(self, ns, V(Ty("cls", name=self.class_of_lv(this, s)), atom(self.subst(ex, m))))
                elif n.startswith("this."):
                    f = n[5:]
                    cur = LFld(this, f, None).get(self, ns)
                    ns = LFld(this, f, cur.ty).set(self, ns, self.from_term(cur.ty, atom(self.subst(ex, m))))
                else:
                    i = c.params.index(n)
                    lvv = vs[i]
                    if not is_lv(lvv):
                        continue
                    cur = lvv.get(self, ns)
                    if ex is None:
                        ns = lvv.set(self, ns, self.fresh(cur.ty, "out"))
                        continue
                    nv = self.from_term(cur.ty, atom(self.subst(ex, m)))
                    if cur.ty.k == "int":
                        ranges.append((nv.e, cur.ty))
                    ns = lvv.set(self, ns, nv)
            if c.ret == "*this":
                rv = this
            elif d.get("kind") == "CXXConstructorDecl":
                cls = self.tu.qname[self.tu.canon.get(d["id"], d["id"])].split("::")[-2]
                rv = V(Ty("cls", name=cls), atom(self.subst(c.ret, m))) if c.ret else self.fresh(Ty("cls", name=cls), "made")
            elif c.ret is not None:
                rv = self.from_term(rty, atom(self.subst(c.ret, m)))
                if rty.k == "int":
                    ranges.append((rv.e, rty))
            elif rty.k == "void":
                rv = V(T_VOID, "()")
            else:
                rv = self.fresh(rty, "res")
            if isinstance(rv, V) and len(rv.e) > 120 and not self.nolet and rv.ty.k in ("int", "bool", "str", "vec", "cls", "uptr", "opt", "ptr"):
                nm = self.tmpname("v")
                t = "int" if rv.ty.k == "int" else self.vt(rv.ty)
                return Stmt("let %s: %s = %s;" % (nm, t, rv.e), ranged(after(ns, V(rv.ty, nm))))
            return ranged(after(ns, rv))

        def ranged(code):
            # a machine integer produced by the callee is in the range of its type
            for e, t in ranges:
                if not is_lit(e):
                    lo, hi = RANGE[t.name]
                    code = Assume("%d <= %s <= %d" % (lo, e, hi) if lo >= 0 else "(%d) <= %s <= %d" % (lo, e, hi), code)
            return code
        def after(ns, rv):
            ens = []
            mm = dict(m)
            if rv is not None and not is_lv(rv) and not (isinstance(rv, V) and rv.ty.k == "void"):
                mm["ret"] = lambda: self.term(rv, ns)
            for n in c.out:
                if n in c.ghost:
                    mm["out." + n] = ns.env["ghost:" + n].e
                elif n == "this" or n.startswith("this."):
                    mm["out.this"] = lambda: atom(self.pack(self.val(this, ns)))
                elif n in c.params and is_lv(vs[c.params.index(n)]):
                    mm["out." + n] = lambda n=n: atom(self.term(vs[c.params.index(n)].get(self, ns), ns))
            for x in c.ensures:
                ens.append(self.subst(x, mm))
            code = k(ns, rv)
            if ens:
                code = If(" && ".join("(%s)" % x for x in ens), code, Done())
            return code
        def body():
            if c.throws:
                cond = atom(self.subst(c.throws, m))
                msg = [V(T_STR, atom(self.subst(c.thrown_msg, m)))] if c.thrown_msg is not None else []
                if cond == "true":
                    return self.throw(s, c.thrown, msg)
                return If(cond, self.throw(s, c.thrown, msg), fin(s))
            return fin(s)
        code = body()
        for h in reversed(hints):
            code = Stmt(h, code)
        for a, o in reversed(asserts):
            code = Assert(a, o, code) if a != "true" else code
        return code

    def throw(self, st, kind, vs):
        if self.throw_k is None:
            raise Unsupported("throw outside a handler")
        return self.throw_k(st, kind, vs)

    def from_term(self, ty, e):
        """value of type ty from a contract term (ints are int-valued terms)"""
        if ty.k == "int":
            return V(ty.noref(), e if re.match(r"^[\w.]+$|^\(.*\)$", e) else "(%s)" % e)
        if ty.k == "ptr" and ty.args[0].k == "cls" and ty.args[0].name == "Rule":
            return V(T_RULEP, e)
        return self.unpack(ty, e)

    # ------------------------------------------------------------ operators (overloaded)
    def x_CXXOperatorCallExpr(self, e, st, k):
        callee = self.unparen_callee(e["inner"][0])
        args = e["inner"][1:]
        d = callee.get("referencedDecl", {})
        op = d.get("name", "")[8:]
        n = self.fn_def(d) if d else None
        if n is not None and d["kind"] == "FunctionDecl":
            return self.xs(args, st, lambda s, vs: self.call(n, None, vs, s, e, k))
        if d.get("kind") == "CXXMethodDecl" and d["id"] in self.tu.cls_of and op != "()":
            mdecl = self.tu.byid[d["id"]]
            return self.lv(args[0], st, lambda s, l: self.xs(args[1:], s, lambda s2, vs: self.user_op(op, mdecl, n, l, vs, s2, e, k)))
        if op == "()":
            def apply(s, f, vs):
                w = self.val(f, s)
                if isinstance(w, Odd) and w.name == "poinit":
                    return stl.operator(self, op, [f] + vs, s, e, k, d)
                return self.call_value(w, vs, s, e, k)
            return self.x(args[0], st, lambda s, f: self.xs(args[1:], s, lambda s2, vs: apply(s2, f, vs)))
        if op == "=":
            # C++17: right before left
            return self.x(args[1], st, lambda s, v: self.lv(args[0], s, lambda s2, l: self.op_assign(l, v, d, s2, e, k)))
        return self.xs(args, st, lambda s, vs: stl.operator(self, op, vs, s, e, k, d))

    def user_op(self, op, mdecl, n, l, vs, st, node, k):
        if op == "=" and (n is None or mdecl.get("explicitlyDefaulted") or mdecl.get("isImplicit") or n.get("explicitlyDefaulted") or body_of(n) is None):
            pt = self.parms(mdecl)[0]["type"]["qualType"]
            if "&&" in pt:
                return self.move_assign(l, vs[0], st, node, k)
            return self.copy_fields(l.get(self, st).ty, self.val(vs[0], st), st, node, lambda s, v: k(l.set(self, s, v), l))
        if n is None:
            raise Unsupported("operator" + op)
        return self.call(n, l, vs, st, node, k)

    def move_assign(self, l, src, st, node, k):
        cls = self.class_of_lv(l, st)
        return self.move_from(src, st, lambda s, v: k(l.set(self, s, v), l))

    def op_assign(self, l, v, d, st, node, k):
        t = self.val(l, st).ty
        q = d.get("type", {}).get("qualType", "")
        w = self.val(v, st)
        if t.k == "js":
            return rjson.assign(self, l, v, st, node, k)
        if t.k in ("str",):
            if isinstance(w, V) and w.ty.k in ("str", "sv", "strlit", "char") or isinstance(w, Obj):
                e = stl.as_str(self, w)
                if "&&" in q and is_lv(v) and not isinstance(v, LTmp) and isinstance(w, V) and w.ty.k == "str":
                    return self.move_from(v, st, lambda s, x: self.assign(l, V(T_STR, e), s, lambda s2: k(s2, l)))
                return self.assign(l, V(T_STR, e), st, lambda s2: k(s2, l))
        if t.k == "uptr":
            if isinstance(w, V) and w.ty.k == "nullptr":
                return k(l.set(self, st, self.null_of(t)), l)
            if isinstance(w, V) and w.ty.k == "uptr":
                if is_lv(v) and not isinstance(v, LTmp):
                    s = v.set(self, st, self.null_of(w.ty))
                    return k(l.set(self, s, V(t, w.e)), l)
                return k(l.set(self, st, V(t, w.e)), l)
        if t.k == "fn":
            return k(l.set(self, st, stl.to_fn(self, w, t)), l)
        if t.k == "opt":
            return k(l.set(self, st, stl.to_opt(self, w, t)), l)
        if t.k in ("vec", "mmap"):
            e = V(t, w.e)
            if "&&" in q:
                return self.move_from(v, st, lambda s, x: k(l.set(self, s, e), l))
            return k(l.set(self, st, e), l)
        if t.k == "pair":
            return k(l.set(self, st, stl.to_pair(self, w, t)), l)
        if t.k in ("iter",) or isinstance(w, It):
            return k(l.set(self, st, w), l)
        if t.k == "regex":
            return k(l.set(self, st, w), l)
        if isinstance(w, Odd):
            return k(l.set(self, st, w), l)
        if t.k == "sv":
            return k(l.set(self, st, V(t, stl.as_str(self, w))), l)
        raise Unsupported("assignment to %r" % t)

    # ------------------------------------------------------------ statements
    def s(self, n, st, K_):
        kind = n.get("kind")
        m = getattr(self, "s_" + kind, None)
        if m is not None:
            return m(n, st, K_)
        # expression statement
        return self.x(n, st, lambda s, v: K_.next(s))

    def seq(self, ns, i, st, K_):
        if i >= len(ns):
            return K_.next(st)
        if ns[i].get("kind") == "DeclStmt":
            # objects whose destructor matters: it runs when the scope is left, whichever way
            for d in reversed(ns[i].get("inner", [])):
                t = self.tu.ty(d) if d.get("kind") == "VarDecl" and d.get("type") else None
                if t is not None and t.k == "cls" and not t.ref and self.schema.classes.get(t.name, {}).get("dtor"):
                    if len(ns[i]["inner"]) != 1:
                        raise Unsupported("several declarations with a destructor")
                    def wrap(f, d=d, t=t):
                        return f and (lambda s, *a: self.destroy(LKey(d["id"], t), s, ns[i], lambda s2: f(s2, *a)))
                    K2 = K(wrap(K_.next), wrap(K_.ret), wrap(K_.brk), wrap(K_.cont), K_.thr)
                    return self.s(ns[i], st, K2.but(next=lambda s: self.seq(ns, i + 1, s, K2)))
        return self.s(ns[i], st, K_.but(next=lambda s: self.seq(ns, i + 1, s, K_)))

    def destroy(self, l, st, node, k):
        """end of life of a local object whose class has a destructor that matters"""
        q = "~" + l.ty.name
        for c, n in self.tu.fdefs.items():
            if n.get("kind") == "CXXDestructorDecl" and n.get("name") == q:
                return self.call(n, l, [], st, node, lambda s, v: k(s))
        raise Unsupported("destructor of " + l.ty.name)

    def s_CompoundStmt(self, n, st, K_):
        keys = set(st.env)
        return self.seq([c for c in n.get("inner", [])], 0, st, K_)

    def s_NullStmt(self, n, st, K_):
        return K_.next(st)

    def s_AttributedStmt(self, n, st, K_):
        inner = [c for c in n.get("inner", []) if not c.get("kind", "").endswith("Attr")]
        return self.s(inner[-1], st, K_)

    def s_DeclStmt(self, n, st, K_):
        return self.decls(n.get("inner", []), 0, st, K_)

    def decls(self, ds, i, st, K_):
        if i >= len(ds):
            return K_.next(st)
        d = ds[i]
        nxt = lambda s: self.decls(ds, i + 1, s, K_)
        kind = d.get("kind")
        if kind in ("UsingDecl", "TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "UsingDirectiveDecl", "NamespaceAliasDecl"):
            return nxt(st)
        if kind == "DecompositionDecl":
            def bind(s, v):
                if self.tu.ty(d).ref and is_lv(v):
                    return self.bind_parts(d, v, s, nxt)
                w = self.val(v, s)
                return self.bind_parts(d, LKey(d["id"], self.tu.ty(d).noref()), s.put(d["id"], w), nxt)
            init = [c for c in d.get("inner", []) if c.get("kind") and c["kind"] != "BindingDecl"]
            return self.x(init[0], st, bind)
        if kind != "VarDecl":
            raise Unsupported("declaration " + str(kind))
        if d.get("storageClass") == "static" and not (d.get("constexpr") or d["type"]["qualType"].startswith("const ")):
            raise Unsupported("static local variable %s (hidden state)" % d.get("name"))
        t = self.tu.ty(d)
        inner = [c for c in d.get("inner", []) if "kind" in c and not c["kind"].endswith("Attr") and not c["kind"].endswith("Comment")]
        if not inner:
            if t.k in ("int", "bool", "char", "ptr"):
                return nxt(st.put(d["id"], self.fresh(t, "uninit")))
            return nxt(life.declared(self, d, t, st.put(d["id"], stl.default_value(self, t))))
        init = inner[-1]
        def go(s, v):
            if t.ref:
                return nxt(s.put(d["id"], Ref(v) if is_lv(v) else v))
            w = self.val(v, s)
            w = self.coerce(w, t)
            if isinstance(w, V) and w.ty.k == "strlit" and t.k in ("str", "sv"):
                w = V(t, w.e)
            if isinstance(w, V) and not self.nolet and len(w.e) > 100 and w.ty.k in ("int", "bool", "str", "vec", "mmap", "uptr", "opt", "ptr"):
                nm = self.tmpname("v")
                return Stmt("let %s: %s = %s;" % (nm, "int" if w.ty.k == "int" else self.vt(w.ty), w.e), nxt(s.put(d["id"], V(w.ty, nm))))
            s = life.declared(self, d, t, s.put(d["id"], w))
            if isinstance(w, Obj) and isinstance(w.src, LTmp) and life.is_doc(t):
                return self.ob("false", "freed", "the text of a document outlives it (it is a temporary)", d, nxt(s))
            return nxt(s)
        return self.x(init, st, go)

    def bind_parts(self, d, l, st, k):
        """auto [a, b] = l: the names stand for the parts of l"""
        parts = [c for c in d.get("inner", []) if c.get("kind") == "BindingDecl"]
        def go(i, s):
            if i >= len(parts):
                return k(s)
            b = parts[i]
            e = [c for c in b.get("inner", []) if c.get("kind")]
            if e and e[-1]["kind"] == "MemberExpr":
                return self.member(l, e[-1].get("name", ""), e[-1], s, lambda s2, v: go(i + 1, s2.put(b["id"], Ref(v))))
            if len(parts) != 2:
                raise Unsupported("structured binding")
            return self.member(l, ("first", "second")[i], b, s, lambda s2, v: go(i + 1, s2.put(b["id"], v.get(self, s2) if isinstance(v, LTmp) else Ref(v) if is_lv(v) else v)))
        return go(0, st)

    def s_ReturnStmt(self, n, st, K_):
        if not n.get("inner"):
            return K_.ret(st, V(T_VOID, "()"))
        return self.x(n["inner"][0], st, lambda s, v: K_.ret(s, v))

    def s_IfStmt(self, n, st, K_):
        inner = list(n["inner"])
        pre = []
        if n.get("hasInit"):
            pre.append(inner.pop(0))
        var = None
        if n.get("hasVar"):
            var = inner.pop(0)
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        def test(s):
            def go(s2, v):
                c = self.truth(v)
                a = (lambda: self.s(then, s2, K_))
                b = (lambda: self.s(els, s2, K_) if els is not None else K_.next(s2))
                if c == "true":
                    return a()
                if c == "false":
                    return b()
                return If(c, a(), b())
            return self.ev(cond, s, go)
        chain = pre + ([var] if var else [])
        def run(i, s):
            if i >= len(chain):
                return test(s)
            return self.s(chain[i], s, K_.but(next=lambda s2: run(i + 1, s2)))
        return run(0, st)

    def s_SwitchStmt(self, n, st, K_):
        inner = list(n["inner"])
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("switch with declaration")
        cond, body = inner[0], inner[1]
        items = []      # flattened statements
        labels = []     # (value or None for default, position)
        def flat(c):
            while c.get("kind") in ("CaseStmt", "DefaultStmt"):
                if c["kind"] == "CaseStmt":
                    vals = c["inner"]
                    if len(vals) == 3:
                        raise Unsupported("case range")
                    labels.append((vals[0], len(items)))
                    c = vals[1]
                else:
                    labels.append((None, len(items)))
                    c = c["inner"][0]
            items.append(c)
        for c in (body.get("inner", []) if body.get("kind") == "CompoundStmt" else [body]):
            flat(c)
        groups, default = [], None
        for v, p in labels:
            if v is None:
                default = p
        for v, p in labels:
            if v is None:
                continue
            cv = self.const_of(v)
            if groups and groups[-1][1] == p:
                groups[-1][0].append(cv)
            else:
                groups.append(([cv], p))
        KK = K_.but(brk=K_.next)
        def go(s, v):
            x = self.num(v)
            ch = v.ty.k == "char"
            def arm(i):
                if i >= len(groups):
                    return self.seq(items, default, s, KK) if default is not None else K_.next(s)
                vals, p = groups[i]
                if p == default:
                    return arm(i + 1)
                if is_lit(x):
                    if lit(x) in vals:
                        return self.seq(items, p, s, KK)
                    return arm(i + 1)
                c = " || ".join("%s == %s" % (x, intlit(w)) for w in sorted(vals))
                return If("(%s)" % c, self.seq(items, p, s, KK), arm(i + 1))
            return arm(0)
        return self.ev(cond, st, go)

    def const_of(self, e):
        box = []
        self.ev(e, State({}), lambda s, v: (box.append(v), Done())[1])
        v = self.num(box[0])
        if not is_lit(v):
            raise Unsupported("case label")
        return lit(v)

    def s_BreakStmt(self, n, st, K_):
        return K_.brk(st)

    def s_ContinueStmt(self, n, st, K_):
        return K_.cont(st)

    def s_CXXTryStmt(self, n, st, K_):
        body, handlers = n["inner"][0], n["inner"][1:]
        old = self.throw_k
        outer_keys = set(st.env)
        def handler(s, kind, vs):
            for h in handlers:
                parts = h["inner"]
                var = parts[0] if parts and parts[0].get("kind") == "VarDecl" else None
                t = self.tu.ty(var) if var else None
                tn = t.name.split("::")[-1] if var is not None and t.name else None
                if var is None or tn == kind or kind in self.schema.exc_sub.get(tn, ()):
                    cur = self.throw_k
                    self.throw_k = old
                    s2 = s
                    if var is not None:
                        s2 = s.put(var["id"], Odd("exc", {"kind": kind, "arg": self.val(vs[0], s) if vs else None}))
                    r = self.s(parts[-1], s2, K_)
                    self.throw_k = cur
                    return r
            cur = self.throw_k
            self.throw_k = old
            r = old(s, kind, vs) if old else None
            self.throw_k = cur
            if r is None:
                raise Unsupported("uncaught")
            return r
        self.throw_k = handler
        def leave(f):
            def g(*a):
                cur = self.throw_k
                self.throw_k = old
                r = f(*a)
                self.throw_k = cur
                return r
            return g if f else None
        r = self.s(body, st, K(leave(K_.next), leave(K_.ret), leave(K_.brk), leave(K_.cont)))
        self.throw_k = old
        return r

    # ------------------------------------------------------------ loops
    def s_WhileStmt(self, n, st, K_):
        inner = n["inner"]
        if n.get("hasVar"):
            var, cond, body = inner[0], inner[-2], inner[-1]
            raise Unsupported("while with declaration")
        cond, body = inner[-2], inner[-1]
        return self.loop(n, None, cond, None, body, st, K_)

    def s_DoStmt(self, n, st, K_):
        body, cond = n["inner"]
        return self.loop(n, None, cond, None, body, st, K_, post=True)

    def s_ForStmt(self, n, st, K_):
        init, cvar, cond, inc, body = n["inner"]
        if cvar.get("kind"):
            raise Unsupported("for with condition variable")
        if init.get("kind"):
            return self.s(init, st, K_.but(next=lambda s: self.loop(n, None, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, s, K_)))
        return self.loop(n, None, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, st, K_)

    def s_CXXForRangeStmt(self, n, st, K_):
        inner = n["inner"]
        rng = inner[1]["inner"][0]
        rexpr = [c for c in rng.get("inner", []) if "kind" in c][-1]
        var = inner[6]["inner"][0]
        body = inner[7]
        idx = "idx:" + n["id"]
        def go(s, rl):
            rv = self.val(rl, s)
            vt_ = self.tu.ty(var)
            if isinstance(rv, Odd):
                rv = stl.range_of(self, rv, s)
                rl = LTmp(rv)
            if isinstance(rv, Obj):
                raise Unsupported("range over %r" % rv.ty)
            whole = self.range_insert(var, body)
            if whole and not self.nolet and isinstance(rv, V) and rv.ty.k in ("vec", "mmap"):
                target, moved = whole
                def put(s2, xl):
                    x = self.val(xl, s2)
                    et = elem_ty(rv)
                    if not (isinstance(x, V) and x.ty.k in ("vec", "mmap") and elem_ty(x) == et and et.k in ("str", "pair", "int", "bool")) or root_key(xl) == root_key(rl):
                        return None
                    def after(s3):
                        if moved and not isinstance(rl, LTmp):
                            s3 = rl.set(self, s3, self.freshval(rv.ty, self.tmpname("moved")))
                        return K_.next(s3)
                    e = "mm_insert_all(%s, %s)" % (x.e, rv.e) if x.ty.k == "mmap" else "(%s + %s)" % (x.e, rv.e)
                    return stl.upd(self, xl, e, s2, after)
                r = self.lv(target, s, put)
                if r is not None:
                    return r
            if rv.ty.k == "js":
                import rjson
                rv = V(Ty("vec", (rv.ty,)), rjson.arm(rv.e, "Arr"))
                rl = LTmp(rv)
            length = seq_len(rv)
            s = s.put(idx, V(T_I64, "0"))
            def cond_k(s2, k2):
                return k2(s2, V(T_BOOL, "(%s < %s)" % (s2.env[idx].e, length)))
            def body_k(s2, KK):
                i = s2.env[idx].e
                if rv.ty.k == "rulevec":
                    el = LRule("r_nest(%s, %s)" % (rv.e, i))
                    s3 = s2.put(var["id"], Ref(el))
                else:
                    ety = elem_ty(rv)
                    el = LIdx(rl, i, ety) if not isinstance(rl, LTmp) else LTmp(self.unpack(ety, "%s[%s]" % (atom(rv.e), i)))
                    if vt_.ref:
                        s3 = s2.put(var["id"], Ref(el))
                    else:
                        s3 = s2.put(var["id"], el.get(self, s2))
                if var.get("kind") == "DecompositionDecl":
                    return self.bind_parts(var, el if vt_.ref else LKey(var["id"], vt_.noref()), s3, lambda s4: self.s(body, s4, KK))
                return self.s(body, s3, KK)
            def inc_k(s2, k2):
                return k2(s2.put(idx, V(T_I64, simp("(%s + 1)" % s2.env[idx].e))))
            return self.loop(n, None, None, None, None, s, K_, fns=(cond_k, inc_k, body_k), auto=[("range index in bounds", lambda s2: "(0 <= %s && %s <= %s)" % (s2.env[idx].e, s2.env[idx].e, length))],
                             autodecr=lambda s2: "(%s - %s)" % (length, s2.env[idx].e), idxkey=idx, rangeval=rv)
        return self.lv(rexpr, st, go)

    def range_insert(self, var, body):
        """for(x : range) c.push_back(x), c.insert(x): the whole range is inserted, in order -> (c, x is moved from)"""
        while body.get("kind") in ("CompoundStmt", "ExprWithCleanups") and len(body.get("inner", [])) == 1:
            body = body["inner"][0]
        if body.get("kind") != "CXXMemberCallExpr" or len(body["inner"]) != 2:
            return None
        callee, arg = body["inner"]
        if callee.get("kind") != "MemberExpr" or callee.get("name") not in ("push_back", "emplace_back", "insert", "emplace"):
            return None
        moved = False
        while arg.get("kind") != "DeclRefExpr":
            ks = [c for c in arg.get("inner", []) if c.get("kind") and c["kind"] != "CXXDefaultArgExpr"]
            if arg.get("kind") == "CallExpr" and len(ks) == 2:
                f = ks[0]
                while f.get("kind") == "ImplicitCastExpr":
                    f = f["inner"][0]
                if f.get("referencedDecl", {}).get("name") not in ("move", "forward"):
                    return None
                moved = True
                arg = ks[1]
            elif arg.get("kind") in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXConstructExpr", "ParenExpr", "ExprWithCleanups", "CXXFunctionalCastExpr") and len(ks) == 1:
                arg = ks[0]
            else:
                return None
        if arg.get("referencedDecl", {}).get("id") != var["id"]:
            return None
        return callee["inner"][0], moved

    def loop(self, n, _x, cond, inc, body, st, K_, post=False, fns=None, auto=(), autodecr=None, idxkey=None, rangeval=None):
        if self.nolet:
            # inside a purity probe: loops are never pure
            return Stmt("loop", Done())
        lno = self.loopmap.setdefault(n["id"], len(self.loopmap) + 1)
        if fns:
            cond_k, inc_k, body_k = fns
        else:
            def cond_k(s, k2):
                if cond is None:
                    return k2(s, V(T_BOOL, "true"))
                return self.ev(cond, s, lambda s2, v: k2(s2, V(T_BOOL, self.truth(v))))
            def inc_k(s, k2):
                if inc is None:
                    return k2(s)
                return self.x(inc, s, lambda s2, v: k2(s2))
            def body_k(s, KK):
                return self.s(body, s, KK)
        scope = list(st.env)
        # ---- which locations does one iteration change?
        hav = {}
        head = st
        saved = (self.throw_k,)
        names = {}
        for rnd in range(8):
            changed = set()
            def back(s):
                for kk in scope:
                    if s.env[kk].key() != head.env[kk].key():
                        for path, v, w in leaf_diff(head.env[kk], s.env[kk]):
                            changed.add((kk, path))
                return Done()
            def iterate(s):
                KK = K(lambda s2: inc_k(s2, back), lambda s2, v: Done(), lambda s2: Done(), lambda s2: inc_k(s2, back))
                if post:
                    KK = K(lambda s2: cond_k(s2, lambda s3, c: back(s3)), lambda s2, v: Done(), lambda s2: Done(), lambda s2: cond_k(s2, lambda s3, c: back(s3)))
                    return body_k(s, KK)
                return cond_k(s, lambda s2, c: self.both(c, lambda: body_k(s2, KK)))
            amb = dict(self.ambiguous)
            self.throw_k = lambda s, kind, vs: Done()
            iterate(head)
            self.throw_k = saved[0]
            self.ambiguous = amb
            new = changed - set(hav)
            if not new:
                break
            for kk, path in sorted(new, key=str):
                v = get_path(st.env[kk], path)
                nm = self.varname(kk) + ("_" + "_".join(map(str, path)) if path else "")
                hv = self.havoc(v, nm, st)
                hav[(kk, path)] = hv
                head = head.put(kk, set_path(head.env[kk], path, hv))
        else:
            raise Unsupported("loop effects do not stabilise")
        # ---- invariants
        spec = self.cur.loop(lno, n) if self.cur is not None else None
        if spec is None:
            self.bare_loops.add(lno)
        if cond is not None and not post and not autodecr and not (spec and spec.decr):
            # no measure given: read it off the condition
            ops = self.cond_sides(cond, head)
            if ops:
                op_ = ops[0]
                sides = lambda s: self.cond_sides(cond, s) or ("", "0", "0")
                autodecr = lambda s: "(%s - %s)" % (sides(s)[2], sides(s)[1])
                auto = list(auto)
                if op_ == "!=" or spec and "$i" in spec.text():
                    auto.append(("range index in bounds", lambda s: "(%s <= %s)" % sides(s)[1:]))
                    auto.append(("range index is not negative", lambda s: "(0 <= %s)" % sides(s)[1]))
        roles = self.bind_roles(spec, hav, st, head, lno, idxkey, rangeval)
        def inv_terms(s):
            r = []
            for name, f in auto:
                r.append((name, f(s)))
            for (kk, path), hv in hav.items():
                if isinstance(hv, Ptr):
                    base = hv.lv.b
                    if any(repr(root_key(base)) == repr(root_key(LKey(k2, None))) for k2, _ in hav if (k2, _) != (kk, path)):
                        raise Unsupported("loop changes the list a pointer walks along")
                    w = get_path(s.env[kk], path)
                    if not isinstance(w, Ptr) or w.lv is None:
                        raise Unsupported("loop sets a pointer to null")
                    b2, n2 = self.hops_norm(w.lv, hv.lv.ty)
                    if b2.key() != base.key():
                        raise Unsupported("loop moves a pointer to another list")
                    t = self.hops_cond(base, n2, hv.lv.ty, s)
                    r.append(("pointer stays on its list", t if w.cond in ("true", t) else "(0 <= %s && ((%s) <==> (%s)))" % (n2, w.cond, t)))
            if spec:
                m = roles(s)
                for x in spec.inv:
                    r.append((x, self.subst(x, m)))
            return r
        def decr_terms(s):
            if spec and spec.decr:
                m = roles(s)
                return [self.subst(x, m) for x in spec.decr]
            if autodecr:
                return [autodecr(s)]
            return None
        # do the havoced ints carry their type range
        def check(s, what, rest):
            code = rest
            for name, t in reversed(inv_terms(s)):
                code = Assert(t, Obl("loop-" + what, "loop %d invariant (%s): %s" % (lno, what, name), line_of(n), self.fname), code)
            return code
        inv = inv_terms(head)
        h0 = decr_terms(head)
        def backedge(s):
            code = Done()
            d1 = decr_terms(s)
            if d1 is None:
                raise Unsupported("no termination measure for loop %d of %s" % (lno, self.fname))
            hints = []
            if spec:
                m = roles(s, head)
                hints = [self.subst(x, m) for x in spec.hints]
            code = Assert(lex_less(d1, h0), Obl("decreases", "loop %d terminates (measure decreases)" % lno, line_of(n), self.fname), code)
            code = check(s, "preserved", code)
            for h in reversed(hints):
                code = Stmt(h, code)
            return code
        # variables declared inside the loop die at its end
        def trim(s):
            return State({kk: v for kk, v in s.env.items() if kk in st.env or (isinstance(kk, str) and kk.startswith(("tmp:", "ghost:")))})
        def exit_(s):
            code = K_.next(trim(s))
            if spec and spec.exit_hints:
                m = roles(s, head)
                for h in reversed([self.subst(x, m) for x in spec.exit_hints]):
                    code = Stmt(h, code)
            return code
        KK = K(lambda s2: inc_k(s2, lambda s3: backedge(trim(s3))), K_.ret, exit_, lambda s2: inc_k(s2, lambda s3: backedge(trim(s3))))
        if post:
            def tail(s2):
                def go(s3, c):
                    if c.e == "true":
                        return backedge(trim(s3))
                    if c.e == "false":
                        return exit_(s3)
                    return If(c.e, backedge(trim(s3)), exit_(s3))
                return cond_k(s2, go)
            KK = K(tail, K_.ret, exit_, tail)
            inner = body_k(head, KK)
        else:
            def go(s2, c):
                if c.e == "true":
                    return body_k(s2, KK)
                if c.e == "false":
                    return exit_(s2)
                return If(c.e, body_k(s2, KK), exit_(s2))
            inner = cond_k(head, go)
        if spec and spec.head_hints:
            m = roles(head)
            for h in reversed([self.subst(x, m) for x in spec.head_hints]):
                inner = Stmt(h, inner)
        guard = " && ".join("(%s)" % t for _, t in inv) or "true"
        entry_hints = []
        code = If(guard, inner, Done()) if guard != "true" else inner
        code = check(st, "entry", code)
        if spec and spec.entry_hints:
            m = roles(st)
            for h in reversed([self.subst(x, m) for x in spec.entry_hints]):
                code = Stmt(h, code)
        return code

    def both(self, c, f):
        return f()

    def cond_sides(self, cond, s):
        """the condition as "a < b" or "a != b" -> (operator, a, b)"""
        r = self.pure(lambda k: self.ev(cond, s, lambda s2, v: k(s2, V(T_BOOL, self.truth(v)))), s)
        if r is None:
            return None
        e = r[0].e
        while e.startswith("(") and e.endswith(")") and balanced(e[1:-1]):
            e = e[1:-1]
        d, parts, last = 0, [], 0
        neg = False
        if e.startswith("!"):
            e2 = e[1:].strip()
            while e2.startswith("(") and e2.endswith(")") and balanced(e2[1:-1]):
                e2 = e2[1:-1]
            if " == " in e2:
                e, neg = e2, True
        for i, ch in enumerate(e):
            d += ch in "([{"
            d -= ch in ")]}"
            if d == 0:
                for op in (" && ",):
                    if e.startswith(op, i):
                        parts.append(e[last:i])
                        last = i + len(op)
        e = (parts + [e[last:]])[0].strip()
        while e.startswith("(") and e.endswith(")") and balanced(e[1:-1]):
            e = e[1:-1]
        d = 0
        for i, ch in enumerate(e):
            d += ch in "([{"
            d -= ch in ")]}"
            if d == 0:
                for op in (" < ", " != ", " == ", " > "):
                    if e.startswith(op, i):
                        a, b = e[:i], e[i + len(op):]
                        op = op.strip()
                        if ".null" in a or ".null" in b or " && " in b or " || " in b:
                            return None
                        if op == "==":
                            return ("!=", a, b) if neg else None
                        return ("<", b, a) if op == ">" else (op, a, b)
        return None

    def havoc(self, v, nm, st=None):
        if isinstance(v, V):
            return self.freshval_v(v.ty, nm)
        if isinstance(v, Obj):
            return Obj(v.ty, {n: self.havoc(x, nm + "_" + n, st) for n, x in v.f.items()})
        if isinstance(v, It):
            self.n += 1
            p = "%s%d" % (nm, self.n)
            self.params.append((p, "int"))
            return It(v.seq, p, v.rev, v.lv, v.elty)
        if isinstance(v, Ptr):
            return self.havoc_ptr(v, nm, st)
        raise Unsupported("loop changes %r" % (v,))

    def havoc_ptr(self, v, nm, st):
        l = v.lv
        if l is None:
            raise Unsupported("loop changes a null pointer")
        t = l.ty
        base = l.b if isinstance(l, LHops) else l
        self.hop_fn(t, "get")
        self.n += 1
        p = "%s_hops%d" % (nm, self.n)
        self.params.append((p, "int"))
        return Ptr(LHops(base, p, t), self.hops_cond(base, p, t, st), v.ty)

    HOPS = {"Rule": {"get": "rule_hops_get", "set": "rule_hops_set", "len": "rule_chain"},
            "StringPipe": {"get": "pipe_hops_get", "set": "pipe_hops_set", "len": "pipe_len"}}

    def hop_fn(self, ty, what):
        if ty is None or ty.k != "cls" or ty.name not in self.HOPS:
            raise Unsupported("loop moves a pointer to %r" % ty)
        return self.HOPS[ty.name][what]

    def hops_cond(self, base, p, t, st):
        return "(0 <= %s && %s < %s(%s))" % (p, p, self.hop_fn(t, "len"), self.pack(base.get(self, st), t))

    def hops_norm(self, l, t):
        """(base, number of steps along `next`) of an lvalue"""
        if isinstance(l, LHops):
            return l.b, l.k
        if isinstance(l, LSome) and isinstance(l.b, LFld) and l.b.f == "next" and t is not None and t.k == "cls":
            b, n = self.hops_norm(l.b.b, t)
            return b, simp("(%s + 1)" % n)
        return l, "0"

    def freshval_v(self, ty, nm):
        self.n += 1
        if ty.k == "strlit":
            ty = T_STR
        name = "%s%d" % (re.sub(r"\W", "_", nm), self.n)
        if ty.k == "int" and ty.name == "off":
            self.params.append((name, "int"))
            return V(ty, name)
        self.params.append((name, self.vt(ty)))
        return self.unpack(ty, name)

    def varname(self, kk):
        n = self.tu.byid.get(kk)
        if n is not None and n.get("name"):
            return n["name"]
        if isinstance(kk, str) and kk.startswith("idx:"):
            return "idx"
        if isinstance(kk, str) and kk.startswith("glob:"):
            return kk[5:]
        return re.sub(r"\W", "_", str(kk))

    def bind_roles(self, spec, hav, st, head, lno, idxkey, rangeval):
        """role name -> location; roles are the modified locations, found by kind (and by name when several fit)"""
        locs = []
        for (kk, path), v in hav.items():
            locs.append(((kk, path), v, self.varname(kk)))
        chosen = {}
        if spec:
            used = set()
            choice = self.rolechoice.get(lno)
            alts, ncands = 1, []
            for ri, (role, kind) in enumerate(spec.roles):
                opt = role.endswith("?")
                role_ = role.rstrip("?")
                cands = [l for l in locs if role_kind(l[1]) == kind and l[0] not in used]
                if not cands:
                    if opt:
                        continue
                    # an unmodified location of that name may serve
                    same = [kk for kk in st.env if self.varname(kk) == role_]
                    if same:
                        chosen[role_] = (same[0], ())
                        continue
                    raise Unsupported("loop %d of %s: no variable for role %s (%s)" % (lno, self.fname, role_, kind))
                named = [l for l in cands if l[2] == role_]
                alts *= len(cands)
                ncands.append(len(cands))
                if choice is not None:
                    pick = cands[choice[ri] % len(cands)] if ri < len(choice) else cands[0]
                elif named:
                    pick = named[0]
                else:
                    pick = cands[0]
                used.add(pick[0])
                chosen[role_] = pick[0]
            self.ambiguous[lno] = alts
            self.role_cands[lno] = ncands
            if not idxkey and "i" not in chosen and "$i" in spec.text() and not any(l[2] == "i" for l in locs):
                ints = [l for l in locs if role_kind(l[1]) == "int" and l[0] not in used]
                if ints:
                    chosen["i"] = ints[0][0]
        def roles(s, at_head=None):
            m = dict(self.curargs)
            for role, (kk, path) in chosen.items():
                v = get_path(s.env[kk], path)
                if isinstance(v, Ref):
                    v = v.lv.get(self, s)
                m[role] = (lambda v=v, s=s: self.role_term(v, s))
                if at_head is not None:
                    w = get_path(at_head.env[kk], path)
                    m["old_" + role] = (lambda w=w: self.role_term(w, at_head))
                w0 = get_path(st.env[kk], path)
                m["init_" + role] = (lambda w0=w0: self.role_term(w0, st))
            # every named variable in scope, by name
            for kk, v in reversed(list(s.env.items())):
                nm = self.varname(kk)
                if nm and nm not in m and re.match(r"^[A-Za-z_]\w*$", nm):
                    m[nm] = (lambda v=v, s=s: self.role_term(v.lv.get(self, s) if isinstance(v, Ref) else v, s))
                if kk in head.env and nm and "old_" + nm not in m and at_head is not None and kk in at_head.env:
                    w = at_head.env[kk]
                    m["old_" + nm] = (lambda w=w: self.role_term(w.lv.get(self, at_head) if isinstance(w, Ref) else w, at_head))
            if idxkey:
                m["i"] = s.env[idxkey].e
                if at_head is not None:
                    m["old_i"] = at_head.env[idxkey].e
            if rangeval is not None:
                m["range"] = (lambda: atom(rangeval.e))
            th = s.env.get("this")
            if isinstance(th, Ptr) and th.lv is not None:
                try:
                    o = th.lv.get(self, s)
                    oo = self.unpack_obj(o) if isinstance(o, V) else o
                    if isinstance(oo, Obj):
                        m["cur"] = (lambda o=o: self.pack(o))
                        for fn, fv in oo.f.items():
                            m["cur." + fn] = (lambda fv=fv, s=s: self.role_term(fv, s))
                except Unsupported:
                    pass
            return m
        return roles

    def role_term(self, v, s):
        if isinstance(v, It):
            return v.pos
        if isinstance(v, Ptr) and v.lv is not None:
            return self.hops_norm(v.lv, v.lv.ty)[1]
        if isinstance(v, Ptr):
            return "0"
        return self.term(v, s)


# ---------------------------------------------------------------- helpers
def role_kind(v):
    if isinstance(v, It):
        return "int"
    if isinstance(v, Ptr):
        return "hops"
    if isinstance(v, Obj):
        return "cp" if v.ty.k == "ptr" else "obj"
    t = v.ty
    if t.k == "int":
        return "int"
    if t.k == "ptr":
        return {"GumboNode": "node", "GumboAttribute": "attr", "Rule": "rule"}.get(t.args[0].name, "ptr")
    if t.k in ("rulep",):
        return "rule"
    if t.k in ("str", "sv", "ostream"):
        return "str"
    return t.k


def leaf_diff(a, b, path=()):
    if a.key() == b.key():
        return
    if isinstance(a, Obj) and isinstance(b, Obj) and a.ty == b.ty and set(a.f) == set(b.f):
        for n in a.f:
            yield from leaf_diff(a.f[n], b.f[n], path + (n,))
        return
    yield path, a, b


def get_path(v, path):
    for p in path:
        v = v.f[p]
    return v


def set_path(v, path, w):
    if not path:
        return w
    n = Obj(v.ty, v.f)
    n.f[path[0]] = set_path(v.f[path[0]], path[1:], w)
    return n


def root_key(l):
    while hasattr(l, "b"):
        l = l.b
    return repr(l.key())


def seq_len(v):
    if v.ty.k == "rulevec":
        return "(r_nnested(%s) as int)" % v.e
    return "(%s.len() as int)" % atom(v.e)


def elem_ty(v):
    if v.ty.k in ("str", "sv"):
        return T_CHAR
    if v.ty.k == "mmap":
        return Ty("pair", v.ty.args)
    return v.ty.args[0]


T_OFF = Ty("int", name="off")


def mk_cp(null, buf, off):
    return Obj(T_CP, {"null": V(T_BOOL, null), "buf": V(T_STR, buf), "off": V(T_OFF, off)})


def lit_cp(e):
    return mk_cp("false", e + ".push(0i8)" if not e.startswith("seq![]") else "seq![0i8]", "0")


def intlit(n):
    return str(n) if n >= 0 else "(%d)" % n


def simp(e):
    m = re.match(r"^\((.+) ([+-]) 0\)$", e)
    if m and balanced(m.group(1)):
        return m.group(1)
    m = re.match(r"^\(0 \+ (.+)\)$", e)
    if m and balanced(m.group(1)):
        return m.group(1)
    m = re.match(r"^\((\d+) ([+-]) (\d+)\)$", e)
    if m:
        return intlit(int(m.group(1)) + int(m.group(3)) if m.group(2) == "+" else int(m.group(1)) - int(m.group(3)))
    return e


def seqlit(bs):
    if not bs:
        return "Seq::<i8>::empty()"
    return "seq![%s]" % ", ".join("%di8" % (b if b < 128 else b - 256) if b < 128 else "(%di8)" % (b - 256) for b in bs)


def cstring(lit_):
    """bytes of a C string literal as spelled by clang"""
    r = bytearray()
    m = re.match(r'^(?:u8|L|u|U)?"(.*)"$', lit_, re.S)
    s = m.group(1)
    i = 0
    esc = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11, "a": 7, "b": 8, "\\": 92, '"': 34, "'": 39, "?": 63}
    while i < len(s):
        c = s[i]
        if c == "\\":
            d = s[i + 1]
            if d in esc:
                r.append(esc[d])
                i += 2
            elif d == "x":
                j = i + 2
                while j < len(s) and s[j] in "0123456789abcdefABCDEF":
                    j += 1
                r.append(int(s[i + 2:j], 16) & 255)
                i = j
            elif d in "01234567":
                j = i + 1
                while j < len(s) and j < i + 4 and s[j] in "01234567":
                    j += 1
                r.append(int(s[i + 1:j], 8) & 255)
                i = j
            else:
                raise Unsupported("escape in " + lit_)
        else:
            r += c.encode()
            i += 1
    return bytes(r)


def is_assert_fail(e):
    """cast to void of __assert_fail(...)"""
    while isinstance(e, dict) and e.get("kind") in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr"):
        e = e["inner"][0]
    if e.get("kind") == "CallExpr":
        c = e["inner"][0]
        while c.get("kind") == "ImplicitCastExpr":
            c = c["inner"][0]
        return c.get("kind") == "DeclRefExpr" and c["referencedDecl"].get("name") in ("__assert_fail", "__assert_rtn")
    return False


def lex_less(new, old):
    """lexicographic decrease of non-negative integer measures"""
    alts = []
    for i in range(len(new)):
        eqs = ["%s == %s" % (new[j], old[j]) for j in range(i)]
        alts.append("(" + " && ".join(eqs + ["0 <= %s" % new[i], "%s < %s" % (new[i], old[i])]) + ")")
    return "(" + " || ".join(alts) + ")"
