"""Library model: rapidjson's values, documents and writers (assumed contracts on a dependency)."""
from cast import *
from vals import *
import exec as X

T_JS = Ty("js")
ENUM = {"kNullType": 0, "kFalseType": 1, "kTrueType": 2, "kObjectType": 3, "kArrayType": 4, "kStringType": 5, "kNumberType": 6}
KINDS = {"IsNull": "Null", "IsString": "Str", "IsArray": "Arr", "IsObject": "Obj"}


def arm(e, kind):
    """payload of a value known to be of a kind"""
    m = re.match(r"^Js::%s\((.*)\)$" % kind, e)
    if m and balanced(m.group(1)):
        return m.group(1)
    return "js_%s(%s)" % ({"Str": "str", "Arr": "items", "Obj": "members"}[kind], e)


def isk(e, kind):
    m = re.match(r"^Js::(\w+)(\((.*)\))?$", e)
    if m and (m.group(3) is None or balanced(m.group(3))):
        return "true" if m.group(1) == kind else "false"
    return "(%s is %s)" % (atom(e), kind)


class LMember:
    """object[name]"""
    islv = True
    __slots__ = ("b", "n", "ty")

    def __init__(self, b, n):
        self.b, self.n, self.ty = b, n, T_JS

    def key(self):
        return ("ljs", self.b.key(), self.n)

    def get(self, ex, st):
        return V(T_JS, "js_get(%s, %s)" % (arm(self.b.get(ex, st).e, "Obj"), self.n))

    def set(self, ex, st, v):
        o = self.b.get(ex, st)
        return self.b.set(ex, st, V(T_JS, "Js::Obj(js_set(%s, %s, %s))" % (arm(o.e, "Obj"), self.n, v.e)))


class LItem:
    """array[i]"""
    islv = True
    __slots__ = ("b", "i", "ty")

    def __init__(self, b, i):
        self.b, self.i, self.ty = b, i, T_JS

    def key(self):
        return ("ljsi", self.b.key(), self.i)

    def get(self, ex, st):
        return V(T_JS, "%s[%s]" % (arm(self.b.get(ex, st).e, "Arr"), self.i))

    def set(self, ex, st, v):
        o = self.b.get(ex, st)
        return self.b.set(ex, st, V(T_JS, "Js::Arr(%s.update(%s, %s))" % (arm(o.e, "Arr"), self.i, v.e)))


def is_js(v):
    return isinstance(v, V) and v.ty.k == "js"


def is_alloc(v):
    return isinstance(v, Odd) and v.name == "jsalloc"


def take(ex, raw, st, k):
    """rapidjson moves its arguments: the source is left Null"""
    w = ex.val(raw, st)
    if X.is_lv(raw) and not isinstance(raw, LTmp):
        return k(raw.set(ex, st, V(T_JS, "Js::Null")), w)
    return k(st, w)


def key_of(ex, v, st, node, k):
    """a member name: a string value, a C string or a std::string"""
    import stl
    if is_js(v):
        return ex.ob(isk(v.e, "Str"), "assert", "a member name is a string", node, k(st, arm(v.e, "Str")))
    return stl.need_str(ex, v, st, node, k)


def construct(ex, t, raw, st, node, k):
    import stl
    if t.k == "jsalloc":
        return k(st, Odd("jsalloc", {}, t))
    if t.k == "jsbuf":
        return k(st, V(t.noref(), "Seq::<i8>::empty()"))
    if t.k == "jswriter":
        if len(raw) != 1 or not X.is_lv(raw[0]) or isinstance(raw[0], LTmp):
            raise Unsupported("JSON writer with options")
        return k(st, Odd("jswriter", {"buf": raw[0], "pretty": "true" if t.name == "PrettyWriter" else "false"}, t))
    vs = [ex.val(r, st) for r in raw]
    keep = [(r, v) for r, v in zip(raw, vs) if not is_alloc(v)]
    ct = (node.get("ctorType") or {}).get("qualType", "")
    ty = T_JS
    if not keep:
        return k(st, V(ty, "Js::Null"))
    r, v = keep[0]
    if len(keep) == 1 and is_js(v):
        if "&&" in ct:
            return take(ex, r, st, lambda s, w: k(s, V(ty, w.e)))
        return k(st, V(ty, v.e))          # deep copy
    if len(keep) == 1 and isinstance(v, V) and v.ty.k == "int" and "Type" in ct:
        e = {"0": "Js::Null", "3": "Js::Obj(Seq::empty())", "4": "Js::Arr(Seq::empty())", "5": "Js::Str(Seq::empty())"}.get(v.e)
        if e:
            return k(st, V(ty, e))
    if stl.is_str(v) or stl.is_cp(v):
        if len(keep) == 2 and stl.is_cp(v):
            return stl.construct(ex, T_STR, [r, keep[1][0]], st, {"ctorType": {}, **node}, lambda s, w: k(s, V(ty, "Js::Str(%s)" % w.e)))
        if len(keep) == 1:
            return stl.need_str(ex, v, st, node, lambda s, e: k(s, V(ty, "Js::Str(%s)" % e)))
    raise Unsupported("JSON value from %r" % (vs,))


def method(ex, name, l, raw, st, node, k):
    import stl
    v = ex.val(l, st)
    vs = [ex.val(r, st) for r in raw]
    if v.ty.k == "jsbuf":
        if name == "GetString":
            ex.assumes.add("rapidjson: the text of a JSON value contains no NUL byte")
            return Assume("(up_to_nul(%s) =~= %s)" % (v.e, v.e), k(st, X.mk_cp("false", "%s.push(0i8)" % atom(v.e), "0")))
        if name in ("GetSize", "GetLength"):
            n = "(%s.len() as int)" % atom(v.e)
            return ex.len_bound(n, k(st, V(T_U64, n)))
        if name == "Clear":
            return k(l.set(ex, st, V(v.ty, "Seq::<i8>::empty()")), V(T_VOID, "()"))
        raise Unsupported("StringBuffer::" + name)
    keep = [(r, w) for r, w in zip(raw, vs) if not is_alloc(w)]
    if name == "GetAllocator":
        return k(st, LTmp(Odd("jsalloc", {})))
    if name in KINDS:
        return k(st, V(T_BOOL, isk(v.e, KINDS[name])))
    if name in ("SetArray", "SetObject", "SetNull"):
        e = {"SetArray": "Js::Arr(Seq::empty())", "SetObject": "Js::Obj(Seq::empty())", "SetNull": "Js::Null"}[name]
        return k(l.set(ex, st, V(T_JS, e)), l)
    arr = lambda rest: ex.ob(isk(v.e, "Arr"), "assert", "the JSON value is an array", node, rest)
    obj = lambda rest: ex.ob(isk(v.e, "Obj"), "assert", "the JSON value is an object", node, rest)
    A, O = arm(v.e, "Arr"), arm(v.e, "Obj")
    if name in ("Empty", "Size"):
        n = "(%s.len() as int)" % atom(A)
        if name == "Empty":
            return arr(k(st, V(T_BOOL, "(%s == 0)" % n)))
        ex.assumes.add("rapidjson: the size of a JSON array fits the library's 32 bit size type")
        return arr(Assume("%s <= 0xffff_ffff" % n, k(st, V(T_U32, n))))
    if name in ("ObjectEmpty", "MemberCount"):
        n = "(%s.len() as int)" % atom(O)
        return obj(k(st, V(T_BOOL, "(%s == 0)" % n) if name == "ObjectEmpty" else V(T_U32, n)))
    if name in ("GetArray", "GetObject"):
        return (arr if name == "GetArray" else obj)(k(st, l))
    if name in ("Begin", "End", "begin", "end"):
        return arr(k(st, It(A, "0" if name == "Begin" else "(%s.len() as int)" % atom(A), False, None, T_JS)))
    if name == "HasMember" and len(keep) == 1:
        return key_of(ex, keep[0][1], st, node, lambda s, n: obj(k(s, V(T_BOOL, "js_has(%s, %s)" % (O, n)))))
    if name == "PushBack" and len(keep) == 1 and is_js(keep[0][1]):
        def go(s, w):
            cur = ex.val(l, s)
            return k(l.set(ex, s, V(T_JS, "Js::Arr(%s.push(%s))" % (atom(arm(cur.e, "Arr")), w.e))), l)
        return arr(take(ex, keep[0][0], st, go))
    if name == "AddMember" and len(keep) == 2 and is_js(keep[1][1]):
        def named(s, n):
            def go(s2, w):
                def fin(s3):
                    cur = ex.val(l, s3)
                    return k(l.set(ex, s3, V(T_JS, "Js::Obj(%s.push((%s, %s)))" % (atom(arm(cur.e, "Obj")), n, w.e))), l)
                if is_js(keep[0][1]):
                    return take(ex, keep[0][0], s2, lambda s3, _: fin(s3))
                return fin(s2)
            return take(ex, keep[1][0], s, go)
        return obj(key_of(ex, keep[0][1], st, node, named))
    if name == "GetString":
        return ex.ob(isk(v.e, "Str"), "assert", "the JSON value is a string", node, k(st, X.mk_cp("false", "%s.push(0i8)" % atom(arm(v.e, "Str")), "0")))
    if name == "CopyFrom" and keep and is_js(keep[0][1]):
        return k(l.set(ex, st, V(T_JS, keep[0][1].e)), l)
    if name == "Swap" and is_js(keep[0][1]):
        w = keep[0][0]
        return k(w.set(ex, l.set(ex, st, keep[0][1]), v), l)
    if name == "Accept" and isinstance(vs[0], Odd) and vs[0].name == "jswriter":
        b = vs[0].d["buf"]
        t = b.get(ex, st)
        if t.e != "Seq::<i8>::empty()":
            raise Unsupported("JSON writer used twice")
        return k(b.set(ex, st, V(t.ty, "js_text(%s, %s)" % (v.e, vs[0].d["pretty"]))), V(T_BOOL, "true"))
    raise Unsupported("JSON value: " + name)


def index(ex, raw, vs, st, node, k):
    l = raw[0] if X.is_lv(raw[0]) else LTmp(vs[0])
    a, b = vs[0], vs[1]
    if isinstance(b, V) and b.ty.k == "int":
        A = arm(a.e, "Arr")
        return ex.ob(X.AND(isk(a.e, "Arr"), "(0 <= %s && %s < %s.len())" % (b.e, b.e, atom(A))), "assert", "index lies inside the JSON array", node, k(st, LItem(l, b.e)))
    return key_of(ex, b, st, node, lambda s, n: ex.ob(X.AND(isk(a.e, "Obj"), "js_has(%s, %s)" % (arm(a.e, "Obj"), n)), "assert", "the member exists", node, k(s, LMember(l, n))))


def assign(ex, l, raw, st, node, k):
    w = ex.val(raw, st)
    if not is_js(w):
        raise Unsupported("assignment to a JSON value")
    return take(ex, raw, st, lambda s, x: k(l.set(ex, s, V(T_JS, x.e)), l))
