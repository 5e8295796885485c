"""Clang AST extraction: the only way C++ text enters the verifier.

Every run dumps the AST of /repo's current sources with clang and indexes the
declarations.  Nothing is cached between runs.
"""
import json, os, re, subprocess, tempfile

CLANG = "/usr/bin/clang++-18"
REPO = os.environ.get("HEXT_REPO", "/repo")


class Unsupported(Exception):
    """The construct is outside the translated subset (a tool limit, never a verdict)."""


class Ty:
    __slots__ = ("k", "args", "name", "ref", "const")

    def __init__(self, k, args=(), name="", ref="", const=False):
        self.k, self.args, self.name, self.ref, self.const = k, tuple(args), name, ref, const

    def __eq__(self, o):
        return isinstance(o, Ty) and (self.k, self.args, self.name) == (o.k, o.args, o.name)

    def __hash__(self):
        return hash((self.k, self.args, self.name))

    def __repr__(self):
        s = self.k + (":" + self.name if self.name else "")
        if self.args:
            s += "<" + ",".join(map(repr, self.args)) + ">"
        return s + self.ref

    def noref(self):
        return Ty(self.k, self.args, self.name, "", self.const)


INTS = {
    "char": ("i8", True), "signed char": ("i8", True), "unsigned char": ("u8", False),
    "short": ("i16", True), "unsigned short": ("u16", False),
    "int": ("i32", True), "unsigned int": ("u32", False), "unsigned": ("u32", False),
    "long": ("i64", True), "unsigned long": ("u64", False),
    "long long": ("i64", True), "unsigned long long": ("u64", False),
    "size_t": ("u64", False), "std::size_t": ("u64", False), "size_type": ("u64", False),
    "uint64_t": ("u64", False), "std::uint64_t": ("u64", False), "ptrdiff_t": ("i64", True),
    "difference_type": ("i64", True), "std::ptrdiff_t": ("i64", True), "int64_t": ("i64", True),
    "std::int64_t": ("i64", True), "uint32_t": ("u32", False), "std::uint32_t": ("u32", False),
    "int32_t": ("i32", True), "std::int32_t": ("i32", True),
}
RANGE = {
    "i8": (-2**7, 2**7 - 1), "u8": (0, 2**8 - 1), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1),
    "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1),
}


def tok_type(s):
    return re.findall(r"[A-Za-z_][\w]*(?:::[A-Za-z_~]\w*)*|::|[<>,*&()\[\]]|&&|\d+|\.\.\.", s)


class TypeParser:
    def __init__(self, tu):
        self.tu = tu

    def parse(self, s, depth=0):
        s = s.strip()
        if depth > 20:
            raise Unsupported("type nesting " + s)
        m = re.match(r"^\(lambda at ", s)
        if m:
            return Ty("lambda", name=s)
        if "(" in s and not s.startswith("std::function") and not re.match(r"^(const )?(std::)?function<", s):
            # function types, pointers to functions, "(unnamed enum at ...)"
            if "unnamed enum" in s or "anonymous enum" in s:
                return Ty("int", name="u32")
            if not re.search(r"function<", s):
                return Ty("fntype", name=s)
        return self._parse(s, depth)

    def _parse(self, s, depth):
        s = s.strip()
        ref = ""
        if s.endswith("&&"):
            ref, s = "&&", s[:-2].strip()
        elif s.endswith("&"):
            ref, s = "&", s[:-1].strip()
        const = False
        while s.endswith(" const") or s.endswith("*const"):
            const, s = True, s[:-5].strip()
        if s.endswith("*"):
            base = self.parse(s[:-1].strip(), depth + 1)
            return Ty("ptr", (base,), ref=ref, const=const)
        while True:
            if s.startswith("const "):
                const, s = True, s[6:].strip()
            elif s.startswith("typename "):
                s = s[9:].strip()
            elif s.startswith("struct ") or s.startswith("class ") or s.startswith("enum "):
                s = s.split(" ", 1)[1].strip()
            else:
                break
        m = re.match(r"^(.*)\[(\d*)\]$", s)
        if m:
            return Ty("arr", (self.parse(m.group(1), depth + 1),), ref=ref, const=const)
        if s in INTS:
            n, _ = INTS[s]
            if s == "char":
                return Ty("char", ref=ref, const=const)
            return Ty("int", name=n, ref=ref, const=const)
        if s in ("bool", "_Bool"):
            return Ty("bool", ref=ref, const=const)
        if s == "void":
            return Ty("void", ref=ref)
        if s in ("nullptr_t", "std::nullptr_t"):
            return Ty("nullptr")
        # split template
        i = s.find("<")
        if i >= 0:
            head = s[:i]
            j = self._match(s, i)
            inner = s[i + 1:j]
            rest = s[j + 1:]
            if rest.startswith("::"):
                return self.nested(head, inner, rest[2:], ref, const, s, depth)
            args = [a for a in self._split(inner)]
            return self.templ(head, args, ref, const, depth)
        return self.named(s, ref, const, depth)

    def _match(self, s, i):
        d = 0
        for j in range(i, len(s)):
            if s[j] == "<":
                d += 1
            elif s[j] == ">" and s[j - 1] != "-":
                d -= 1
                if d == 0:
                    return j
        raise Unsupported("type " + s)

    def _split(self, s):
        r, d, cur = [], 0, ""
        for ch in s:
            if ch in "<(":
                d += 1
            elif ch in ">)":
                d -= 1
            if ch == "," and d == 0:
                r.append(cur.strip())
                cur = ""
            else:
                cur += ch
        if cur.strip():
            r.append(cur.strip())
        return r

    def templ(self, head, args, ref, const, depth):
        h = head.split("::")[-1]
        P = lambda a: self.parse(a, depth + 1)
        if h == "basic_string":
            return Ty("str", ref=ref, const=const)
        if h == "basic_string_view":
            return Ty("sv", ref=ref, const=const)
        if h in ("basic_ostream", "basic_ostringstream", "basic_stringstream", "basic_istream", "basic_ios"):
            return Ty("ostream", ref=ref, const=const)
        if h in ("vector", "deque", "initializer_list"):
            return Ty("vec", (P(args[0]),), ref=ref, const=const)
        if h == "unique_ptr":
            return Ty("uptr", (P(args[0]),), ref=ref, const=const)
        if h == "optional":
            return Ty("opt", (P(args[0]),), ref=ref, const=const)
        if h == "pair":
            return Ty("pair", (P(args[0]).noref(), P(args[1]).noref()), ref=ref, const=const)
        if h == "multimap":
            return Ty("mmap", (P(args[0]), P(args[1])), ref=ref, const=const)
        if h == "function":
            return Ty("fn", name=args[0].replace("GumboInternalNode", "GumboNode").replace("std::basic_string<char>", "std::string").replace("std::__cxx11::", ""), ref=ref, const=const)
        if h == "basic_regex":
            return Ty("regex", ref=ref, const=const)
        if h == "__normal_iterator":
            return Ty("iter", name="fwd", ref=ref, const=const)
        if h == "reverse_iterator":
            return Ty("iter", name="rev", ref=ref, const=const)
        if h == "remove_reference":
            return P(args[0]).noref()
        if h in ("GenericValue", "GenericDocument"):
            return Ty("js", ref=ref, const=const)
        if h == "GenericStringBuffer":
            return Ty("jsbuf", ref=ref, const=const)
        if h in ("Writer", "PrettyWriter"):
            return Ty("jswriter", name=h, ref=ref, const=const)
        if h == "MemoryPoolAllocator":
            return Ty("jsalloc", ref=ref, const=const)
        import popt
        pt = popt.named_type(h, ref, const)
        if pt is not None:
            return pt
        if h == "Cloneable":
            return Ty("cls", name="Cloneable", args=(P(args[0]), P(args[1])), ref=ref, const=const)
        return Ty("other", name=h, ref=ref, const=const)

    def nested(self, head, inner, rest, ref, const, s, depth):
        if rest in ("size_type",):
            return Ty("int", name="u64", ref=ref, const=const)
        if rest in ("difference_type",):
            return Ty("int", name="i64", ref=ref, const=const)
        if rest == "type" and "remove_reference" in head:
            return self.parse(inner, depth + 1).noref()
        return Ty("other", name=s, ref=ref, const=const)

    def named(self, s, ref, const, depth):
        n = s.split("::")[-1]
        if s in ("std::string", "string"):
            return Ty("str", ref=ref, const=const)
        if n == "string_view":
            return Ty("sv", ref=ref, const=const)
        if n in ("size_type",):
            return Ty("int", name="u64", ref=ref, const=const)
        if n in ("ostream", "ostringstream", "stringstream"):
            return Ty("ostream", ref=ref, const=const)
        if n in ("regex",):
            return Ty("regex", ref=ref, const=const)
        if n in self.tu.typedefs:
            t = self.parse(self.tu.typedefs[n], depth + 1)
            return Ty(t.k, t.args, t.name, ref or t.ref, const or t.const)
        if n in ("GumboNode", "GumboInternalNode"):
            return Ty("g", name="GumboNode", ref=ref, const=const)
        if n in ("GumboElement", "GumboText", "GumboDocument", "GumboVector", "GumboAttribute", "GumboOutput",
                 "GumboInternalOutput", "GumboOptions", "GumboInternalOptions"):
            return Ty("g", name=n.replace("Internal", ""), ref=ref, const=const)
        if n == "GumboStringPiece":
            return Ty("cls", name="GumboStringPiece", ref=ref, const=const)
        if n in ("GumboNodeType", "GumboTag", "GumboAttributeNamespaceEnum", "GumboNamespaceEnum"):
            return Ty("int", name="u32", ref=ref, const=const)
        if n in self.tu.enums or s in self.tu.enums:
            return Ty("int", name=self.tu.enums.get(s) or self.tu.enums[n], ref=ref, const=const)
        if n in self.tu.records:
            return Ty("cls", name=n, ref=ref, const=const)
        import popt
        pt = popt.named_type(n, ref, const)
        if pt is not None:
            return pt
        if s in ("rapidjson::Value", "rapidjson::Document"):
            return Ty("js", ref=ref, const=const)
        if s == "rapidjson::StringBuffer":
            return Ty("jsbuf", ref=ref, const=const)
        if s == "rapidjson::Type":
            return Ty("int", name="u32", ref=ref, const=const)
        if n in ("runtime_error", "exception"):
            return Ty("cls", name=n, ref=ref, const=const)
        if n in ("Option", "JsonOption", "HtmlTag", "flag_type", "flag_type_", "error_type"):
            return Ty("int", name="i32" if not n.startswith("flag_type") else "u32", ref=ref, const=const)
        return Ty("other", name=s, ref=ref, const=const)


def gumbo_enums():
    ids = set()
    for root, _, fs in os.walk("/usr/include"):
        if root.count("/") > 4:
            continue
        for f in fs:
            if f in ("gumbo.h", "tag_enum.h"):
                ids |= set(re.findall(r"\bGUMBO_[A-Z0-9_]+\b", open(os.path.join(root, f)).read()))
    txt = subprocess.run(["gcc", "-E", "-x", "c", "-"], input="#include <gumbo.h>\n", capture_output=True, text=True).stdout
    names = sorted(set(re.findall(r"\bGUMBO_[A-Z0-9_]+\b", txt)))
    src = "#include <gumbo.h>\n#include <stdio.h>\nint main(){\n" + "".join(
        'printf("%s %%d\\n",(int)%s);\n' % (n, n) for n in names) + "}\n"
    d = tempfile.mkdtemp(prefix="cppvc")
    try:
        p = os.path.join(d, "e.c")
        open(p, "w").write(src)
        subprocess.run(["gcc", "-w", p, "-o", os.path.join(d, "e")], check=True)
        out = subprocess.run([os.path.join(d, "e")], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["rm", "-rf", d])
    return {a: int(b) for a, b in (l.split() for l in out.splitlines())}


class TU:
    """One translation unit: indexed declarations of the namespaces of interest."""

    def __init__(self, path, filters=("hext",), incs=None, defs=(), keep=None):
        self.path = path
        self.docs = []
        incs = incs or [REPO + "/libhext/include", REPO + "/libhext/src", REPO + "/libhext/ragel"]
        for f in filters:
            self.docs += [d for d in dump(path, f, incs, defs) if keep is None or d.get("name") in keep]
        self.typedefs, self.enums, self.records, self.enumvals = {}, {}, {}, {}
        self.byid, self.defs, self.qname = {}, {}, {}
        self.vars = {}
        self.parent = {}
        for d in self.docs:
            self._index(d, [], None)
        self._link()
        self.tp = TypeParser(self)
        self._tcache = {}

    def _index(self, n, scope, parent):
        if not isinstance(n, dict) or "kind" not in n:
            return
        k = n["kind"]
        name = n.get("name", "")
        if "id" in n:
            self.byid[n["id"]] = n
            self.parent[n["id"]] = parent
        if k in ("TypedefDecl", "TypeAliasDecl") and name:
            t = n.get("type", {})
            if name not in ("size_type",):
                self.typedefs.setdefault(name, t.get("desugaredQualType") or t.get("qualType"))
        if k == "EnumDecl":
            it = n.get("fixedUnderlyingType", {})
            un = it.get("desugaredQualType") or it.get("qualType")
            if un is None:
                neg = False
                un = "unsigned int"
            self.enums[name] = INTS.get(un, ("i32", True))[0]
            self.enums["::".join(scope + [name])] = self.enums[name]
            val = -1
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    v = None
                    for e in c.get("inner", []):
                        v = const_value(e) if v is None else v
                    val = int(v) if v is not None else val + 1
                    c["_value"] = val
                    self.enumvals[c["name"]] = val
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl") and name:
            if any(c.get("kind") in ("CXXMethodDecl", "FieldDecl", "CXXConstructorDecl") and not c.get("isImplicit") for c in n.get("inner", [])) or n.get("completeDefinition"):
                key = name
                if k == "ClassTemplateSpecializationDecl":
                    key = name + "#" + n["id"]
                self.records[key] = n
        n["_scope"] = scope
        sub = scope
        if k in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl", "EnumDecl") and name:
            sub = scope + [name]
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            self.qname[n["id"]] = "::".join(scope + [name])
            # inner decls (params, locals, lambdas) still need indexing
        for c in n.get("inner", []):
            self._index(c, sub, n)

    def _link(self):
        # definitions: a function with a body (CompoundStmt) or defaulted
        self.fdefs = {}      # canonical id -> definition node
        self.canon = {}
        fns = [n for n in self.byid.values() if n.get("kind") in
               ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl")]
        for n in fns:
            i = n["id"]
            c = i
            seen = set()
            while True:
                p = self.byid.get(c, {}).get("previousDecl")
                if not p or p in seen:
                    break
                seen.add(p)
                c = p
            self.canon[i] = c
        for n in fns:
            c = self.canon[n["id"]]
            if has_body(n):
                self.fdefs[c] = n
        # classes: member definitions are out of line; record class of each method
        self.cls_of = {}
        for key, r in self.records.items():
            for m in r.get("inner", []):
                if "id" in m:
                    self.cls_of[m["id"]] = r
                if m.get("kind") == "FunctionTemplateDecl":
                    for mm in m.get("inner", []):
                        if "id" in mm:
                            self.cls_of[mm["id"]] = r
        for n in fns:
            c = self.canon[n["id"]]
            if c in self.cls_of:
                self.cls_of[n["id"]] = self.cls_of[c]
                self.qname[n["id"]] = "hext::" + self.cls_of[c]["name"] + "::" + n.get("name", "")
                if "htmlext" in self.cls_of[c].get("_scope", []):
                    self.qname[n["id"]] = "htmlext::" + self.cls_of[c]["name"] + "::" + n.get("name", "")

    def ty(self, n):
        t = n.get("type", n) if isinstance(n, dict) else {"qualType": n}
        q = t.get("desugaredQualType") or t.get("qualType") or ""
        if q not in self._tcache:
            self._tcache[q] = self.tp.parse(q)
        r = self._tcache[q]
        if r.k == "other" and t.get("qualType") and t.get("qualType") != q:
            try:
                r2 = self.tp.parse(t["qualType"])
                if r2.k != "other":
                    return r2
            except Unsupported:
                pass
        return r

    def functions(self):
        """(qualified name, definition node) for every function with a body."""
        for c, n in self.fdefs.items():
            yield self.qname.get(n["id"], n.get("name")), n


def has_body(n):
    return any(isinstance(c, dict) and c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", []))


def body_of(n):
    for c in n.get("inner", []):
        if isinstance(c, dict) and c.get("kind") == "CompoundStmt":
            return c
    return None


def const_value(e):
    if not isinstance(e, dict):
        return None
    if e.get("kind") == "ConstantExpr" and "value" in e:
        return e["value"]
    if e.get("kind") == "IntegerLiteral":
        return e["value"]
    for c in e.get("inner", []):
        v = const_value(c)
        if v is not None:
            return v
    return None


def dump(path, filt, incs, defs):
    cmd = [CLANG, "-std=c++17", "-fsyntax-only", "-w"] + ["-I" + i for i in incs] + ["-D" + d for d in defs] + [
        "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise Unsupported("clang cannot parse %s: %s" % (path, p.stderr[-400:]))
    d, s, i, r = json.JSONDecoder(), p.stdout, 0, []
    while True:
        while i < len(s) and s[i] in " \n\r\t":
            i += 1
        if i >= len(s):
            break
        o, i = d.raw_decode(s, i)
        r.append(o)
    return r


def line_of(n):
    for k in ("loc",):
        l = n.get(k) or {}
        l = l.get("expansionLoc", l)
        if "line" in l:
            return l["line"]
    r = (n.get("range") or {}).get("begin") or {}
    r = r.get("expansionLoc", r)
    return r.get("line", 0)
