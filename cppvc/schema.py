"""What the proof knows about the classes of the code: their abstract values and virtual contracts."""
from cast import *
from vals import *

T = Ty
U = lambda n: T("uptr", (T("cls", name=n),))
INT, UINT = T("int", name="i32"), T("int", name="u32")
NODEP = T_NODEP


def enum_class(vt, variant, fields, base, boxed=False):
    def pack(ex, o):
        if not fields:
            return "%s::%s" % (vt, variant)
        return "%s::%s{%s}" % (vt, variant, ", ".join("%s: %s" % (n, ex.pack(o.f[n], t)) for n, t in fields))

    def unpack(ex, v):
        m = {}
        for n, t in fields:
            m[n] = ex.unpack(t, "%s->%s_%s" % (atom(v.e), variant, n))
        return Obj(v.ty, m)
    return {"vt": vt, "base": base, "fields": fields, "pack": pack, "unpack": unpack}


def pipe_class(variant, fields):
    def pack(ex, o):
        k = "PipeK::%s" % variant
        if fields:
            k += "{%s}" % ", ".join("%s: %s" % (n, ex.pack(o.f[n], t)) for n, t in fields)
        return "PipeV{k: %s, next: %s}" % (k, ex.pack(o.f["next"]))

    def unpack(ex, v):
        m = {}
        for n, t in fields:
            m[n] = ex.unpack(t, "%s.k->%s_%s" % (atom(v.e), variant, n))
        m["next"] = ex.unpack(U("StringPipe"), "%s.next" % atom(v.e))
        return Obj(v.ty, m)
    return {"vt": "PipeV", "base": "StringPipe", "fields": fields, "pack": pack, "unpack": unpack}


def rust_name(n):
    return n + "_" if n in ("trait", "type", "match", "ref", "move") else n


def struct_class(vt, fields):
    def pack(ex, o):
        return "%s{%s}" % (vt, ", ".join("%s: %s" % (rust_name(n), ex.pack(o.f[n], t)) for n, t in fields))

    def unpack(ex, v):
        return Obj(v.ty, {n: ex.unpack(t, "%s.%s" % (atom(v.e), rust_name(n))) for n, t in fields})
    return {"vt": vt, "base": None, "fields": fields, "pack": pack, "unpack": unpack}


STR, REGEX = T_STR, T("regex")
FN = T("fn", name="std::string (const GumboNode *)")
MFN = T("fn", name="bool (const GumboNode *)")

CLASSES = {}


def C(name, d):
    CLASSES[name] = d


for _n, _f in {
    "EqualsTest": [("lit", STR)], "BeginsWithTest": [("lit", STR)], "EndsWithTest": [("lit", STR)], "ContainsTest": [("lit", STR)],
    "ContainsWordsTest": [("words", T("vec", (STR,)))], "RegexTest": [("rx", REGEX)], "NegateTest": [("test", U("ValueTest"))],
}.items():
    C(_n, enum_class("TestV", _n, _f, "ValueTest"))
C("ValueTest", {"vt": "TestV", "base": None, "fields": []})

for _n, _f in {
    "AttributeCountMatch": [("attribute_count", UINT)], "AttributeMatch": [("attr_name", STR), ("test", U("ValueTest"))],
    "ChildCountMatch": [("child_count", UINT)], "FunctionMatch": [("func", MFN)],
    "FunctionValueMatch": [("func", FN), ("test", U("ValueTest"))], "NegateMatch": [("matches", T("vec", (U("Match"),)))],
    "NthChildMatch": [("step", INT), ("shift", INT), ("options", UINT)], "OnlyChildMatch": [("options", UINT)], "TypeRegexMatch": [("rx", REGEX)],
}.items():
    C(_n, enum_class("MatchV", _n, _f, "Match"))
C("Match", {"vt": "MatchV", "base": None, "fields": []})

for _n, _f in {
    "AttributeCapture": [("attr_name", STR), ("name", STR), ("pipe", U("StringPipe"))],
    "FunctionCapture": [("func", FN), ("name", STR), ("pipe", U("StringPipe"))],
}.items():
    C(_n, enum_class("CapV", _n, _f, "Capture"))
C("Capture", {"vt": "CapV", "base": None, "fields": []})

for _n, _f in {
    "AppendPipe": [("suffix", STR)], "PrependPipe": [("prefix", STR)], "CasePipe": [("option", UINT)], "CollapseWsPipe": [],
    "RegexPipe": [("regex", REGEX)], "RegexReplacePipe": [("regex", REGEX), ("replace", STR)], "TrimPipe": [("trim_any_of", STR)],
}.items():
    C(_n, pipe_class(_n, _f))
C("PipeK", {"vt": "PipeK", "base": None, "fields": []})


def _sp_pack(ex, o):
    return "PipeV{k: %s, next: %s}" % (ex.pack(o.f["k"]), ex.pack(o.f["next"]))


def _sp_unpack(ex, v):
    return Obj(v.ty, {"k": V(T("cls", name="PipeK"), "%s.k" % atom(v.e)), "next": ex.unpack(U("StringPipe"), "%s.next" % atom(v.e))})


C("StringPipe", {"vt": "PipeV", "base": None, "fields": [("next", U("StringPipe"))], "statefields": [("next", U("StringPipe"))],
                 "ghost": [("k", T("cls", name="PipeK"))], "pack": _sp_pack, "unpack": _sp_unpack})

RULE_FIELDS = [("first_child", U("Rule")), ("next", U("Rule")), ("nested", T("vec", (T("cls", name="Rule"),))),
               ("matches", T("vec", (U("Match"),))), ("captures", T("vec", (U("Capture"),))), ("tag", INT),
               ("is_optional", T_BOOL), ("is_greedy", T_BOOL), ("tagname", T("opt", (STR,)))]
C("Rule", struct_class("RuleV", RULE_FIELDS))
PV_FIELDS = [("nth", T("pair", (INT, INT))), ("builtin", FN), ("attr_name", STR), ("literal_value", STR), ("cap_var", STR),
             ("pipe", U("StringPipe")), ("regex", T("opt", (REGEX,))), ("test", U("ValueTest")), ("trait", U("Match")),
             ("negate", U("NegateMatch")), ("regex_flag", UINT), ("optional", T_BOOL)]
C("PatternValues", struct_class("PvV", PV_FIELDS))
C("GumboStringPiece", {"vt": "PieceV", "base": None, "fields": [("data", T_CP), ("length", T_U64)], "pack": lambda ex, o: "PieceV{data: %s, length: %s}" % (ex.pack(o.f["data"]), ex.pack(o.f["length"]))})

PARSER_FIELDS = [("stacks", T("vec", (T("vec", (T("cls", name="Rule"),)),))), ("p_begin", T_CP), ("p", T_CP), ("pe", T_CP), ("eof", T_CP), ("cs", INT)]
C("Parser", struct_class("ParserV", PARSER_FIELDS))

C("ErrorOutput", struct_class("ErrV", [("out", T("ostream")), ("source", T_CP), ("isatty", T_BOOL)]))
C("ProgramOptions", dict(struct_class("PoV", [("desc", T("podesc")), ("vm", T("vm"))]), statefields=[("desc", T("podesc")), ("vm", T("vm"))]))
C("Html", dict(struct_class("HtmlV", [("outp", T_OUTP)]), dtor=True, statefields=[("outp", T_OUTP)]))

VIRTUAL = {
    "ValueTest": {"test", "clone"}, "Match": {"matches", "clone"}, "Capture": {"capture", "clone"}, "StringPipe": {"transform", "clone"},
}

RANK = {"Rule": 3, "Match": 2, "Capture": 2, "ValueTest": 1, "StringPipe": 1}
GLOBALS = {"TextBuiltin": "FnV::Text", "InnerHtmlBuiltin": "FnV::InnerHtml", "StripTagsBuiltin": "FnV::StripTags"}


class Schema:
    exc_sub = {"exception": {"error", "FileError", "regex_error", "out_of_range", "invalid_argument", "SyntaxError", "MaxSearchError", "runtime_error", "logic_error", "length_error"},
               "runtime_error": {"FileError", "SyntaxError", "MaxSearchError", "regex_error"},
               "logic_error": {"error", "out_of_range", "invalid_argument", "length_error"}}

    REFS = {"ErrorOutput"}      # classes with members that are references

    def __init__(self, gumbo):
        self.gumbo = gumbo
        self.classes = CLASSES

    def enumval(self, name):
        if name in self.gumbo:
            return self.gumbo[name]
        return BOOST_ENUMS.get(name)

    def fnref(self, ex, decl):
        n = decl.get("name")
        m = {"NodeText": "FnV::Text", "NodeInnerHtml": "FnV::InnerHtml", "StripTagsWrapper": "FnV::StripTags"}
        if n in m:
            return m[n]
        raise Unsupported("function value " + str(n))

    def global_(self, ex, d):
        n = d.get("name")
        if n in GLOBALS:
            return V(FN, GLOBALS[n])
        if n == "kGumboDefaultOptions":
            return Odd("gumboopts", {})
        if n in ("in", "binary") and "penmode" in d["type"]["qualType"]:
            return V(INT, "8" if n == "in" else "4")       # neither changes what is read
        if n in ("nullopt",):
            return Odd("nullopt", {})
        if n == "npos":
            return V(T_U64, "18446744073709551615")
        m = re.match(r"^_hext_(actions|key_offsets|trans_keys|single_lengths|range_lengths|index_offsets|indicies|trans_targs|trans_actions|eof_actions)$", n or "")
        if m:
            t = ex.tu.ty(d)
            if t.k == "arr" and t.args[0].k == "char":
                import exec as X
                return X.mk_cp("false", "tab_%s()" % m.group(1), "0")
            if t.k == "arr" and t.args[0].k == "int":
                return V(t, "tab_%s()" % m.group(1))
        if n in BOOST_ENUMS:
            return V(UINT, intlit_(BOOST_ENUMS[n]))
        return None

    def fieldmap(self, tu, cls):
        """declared member name -> name used by the proof; members of unknown name are matched by their type in declaration order"""
        s = self.classes[cls]
        want = list(s.get("fields", [])) + []
        rec = tu.records.get(cls)
        if rec is None:
            return {n: n for n, _ in want}
        have = [(m["name"], tu.ty(m)) for m in rec.get("inner", []) if m.get("kind") == "FieldDecl"]
        m = {}
        left, leftw = [], dict(want)
        for n, t in have:
            c = n.rstrip("_")
            if c in leftw and leftw[c] == t.noref():
                m[n] = c
                del leftw[c]
            else:
                left.append((n, t))
        for n, t in left:
            c = next((w for w, wt in leftw.items() if wt == t.noref()), None)
            if c is None:
                raise Unsupported("member %s of class %s has no place in the proof's model of the class" % (n, cls))
            m[n] = c
            del leftw[c]
        if leftw:
            raise Unsupported("class %s has no member for %s" % (cls, ", ".join(leftw)))
        return m

    def root(self, cls):
        while cls and self.classes.get(cls, {}).get("base"):
            cls = self.classes[cls]["base"]
        return cls

    def virtual(self, cls, name):
        r = self.root(cls)
        if r in VIRTUAL and name in VIRTUAL[r]:
            return r
        return None

    def virtual_call(self, ex, base, name, l, vs, st, node, k):
        o = ex.val(l, st)
        self_ = ex.pack(o)
        if name == "clone":
            ex.assumes.add("virtual %s::clone returns a copy of the object (each implementation is proved: Cloneable over the copy constructors; user classes are trusted)" % base)
            code = k(st, V(U(base), "Some(Box::new(%s))" % self_))
            if ex.cur is not None and ex.cur.sdecr and RANK[self.root(ex.curcls)] <= RANK[base]:
                # every cycle of clones passes through a copy constructor or a clone function; their measure is (rank of the hierarchy, source object)
                m = ex.subst(ex.cur.sdecr, ex.curargs)
                return ex.ob("decreases_to!(%s => %s)" % (m, self_), "decreases", "the cloned object is strictly smaller than the object being copied", node, code)
            return code
        ex.called.add("virtual " + base + "::" + name)
        ex.assumes.add("virtual %s::%s follows its class contract (each implementation in the library is proved; user classes are trusted)" % (base, name))

        def dec(code):
            # a virtual call from an implementation of the same hierarchy must be on a strictly smaller object
            cur = ex.cur
            if cur is not None and cur.overrides == base and name == cur.name.split("::")[-1]:
                return ex.ob("decreases_to!(%s => %s)" % (ex.curargs["this"]() if callable(ex.curargs["this"]) else ex.curargs["this"], self_), "decreases", "virtual recursion is on a strictly smaller object", node, code)
            return code
        if base == "ValueTest":
            w = ex.coerce(ex.val(vs[0], st), T_CP)
            return dec(ex.ob(X_cp_wf(w), "requires", "string handed to a value test is a valid character pointer", node, k(st, V(T_BOOL, "test_holds(%s, subj(%s))" % (self_, ex.pack(w))))))
        if base == "Match":
            n = ex.val(vs[0], st).e
            return dec(ex.ob("!(%s is Null) && n_ok(%s)" % (n, n), "null", "node passed to a condition exists", node,
                             k(st, V(T_BOOL, "match_holds(%s, %s)" % (self_, n)))))
        if base == "Capture":
            n = ex.val(vs[0], st).e
            return dec(ex.ob("!(%s is Null) && n_ok(%s)" % (n, n), "null", "node passed to a capture exists", node,
                             k(st, V(T("opt", (T("pair", (STR, STR)),)), "cap_of(%s, %s)" % (self_, n)))))
        if base == "StringPipe":
            s = ex.val(vs[0], st)
            e = s.e
            kk = "%s.k" % atom(self_)
            if isinstance(o, Obj) and "k" in o.f:
                kk = o.f["k"].e

            def fin(s2, w):
                return k(s2, V(STR, "pipe_fn(%s, %s)" % (kk, w.e)))
            if isinstance(s, V) and is_movable(vs[0]):
                return ex.move_from(vs[0], st, fin)
            return fin(st, s)
        raise Unsupported("virtual %s::%s" % (base, name))


def X_cp_wf(w):
    import stl
    return stl.cp_wf(w)


def is_movable(l):
    return isinstance(l, (LKey, LFld)) and False


def intlit_(n):
    return str(n) if n >= 0 else "(%d)" % n


BOOST_ENUMS = {"perl": 0, "icase": 1 << 20, "collate": 1 << 21, "token_compress_on": 0, "token_compress_off": 1, "keep_empty_tokens": 1, "drop_empty_tokens": 0}
