"""What the proof knows about boost::program_options and about reading files (only the command line tool uses them).

A parsed command line is an abstract value (VmV): for every option name whether it counts, whether it only has its
default, and its value.  How the command line is split into options is an uninterpreted function of the declared
options, the positional names and the arguments."""
import re
from cast import *
from vals import *
import exec as X

T_VM, T_DESC = Ty("vm"), Ty("podesc")
BOOST = ("basic_command_line_parser", "command_line_parser", "positional_options_description", "options_description_easy_init", "basic_parsed_options", "parsed_options",
         "variable_value", "typed_value", "value_semantic")
FILES = ("basic_ifstream", "ifstream", "basic_filebuf", "filebuf")


def named_type(n, ref, const):
    if n == "variables_map":
        return Ty("vm", ref=ref, const=const)
    if n == "options_description":
        return Ty("podesc", ref=ref, const=const)
    if n in BOOST:
        return Ty("boost", name=n, ref=ref, const=const)
    if n in FILES:
        return Ty("file", name=n, ref=ref, const=const)
    return None


def mine(v):
    return isinstance(v, V) and v.ty.k in ("vm", "podesc") or isinstance(v, Odd) and v.name in ("cliparser", "popos", "parsed", "poinit", "posem", "vmval", "ifs", "filebuf")


def kind_of(t):
    t = t.noref()
    if t.k == "vec" and t.args[0].k in ("str",):
        return "Strs"
    if t.k == "str":
        return "Text"
    if t.k == "int" and t.name == "u64":
        return "Num"
    raise Unsupported("option value of type %r" % t)


def construct(ex, t, raw, st, node, k):
    import stl
    vs = [ex.val(r, st) for r in raw]
    if len(vs) == 1 and mine(vs[0]):
        return k(st, vs[0])
    if t.k == "vm" and not vs:
        return k(st, V(T_VM, "vm_empty()"))
    if t.k == "podesc":
        # the caption is not looked at
        return k(st, V(T_DESC, "Seq::<OptD>::empty()"))
    if t.k == "boost":
        if "command_line_parser" in t.name and len(vs) == 2 and isinstance(vs[1], It):
            n = ex.num(vs[0])
            return ex.ob("(0 <= %s && %s + %s <= %s.len())" % (n, vs[1].pos, n, atom(vs[1].seq)), "bounds", "the arguments exist", node,
                         k(st, Odd("cliparser", {"args": "%s.subrange(%s, %s)" % (atom(vs[1].seq), vs[1].pos, X.simp("(%s + %s)" % (vs[1].pos, n))), "desc": None, "pos": "Seq::<(Seq<i8>, int)>::empty()"})))
        if t.name == "positional_options_description" and not vs:
            return k(st, Odd("popos", {"list": "Seq::<(Seq<i8>, int)>::empty()"}))
    if t.k == "file" and vs and stl.is_str(vs[0]) and "ifstream" in t.name:
        ex.assumes.add("files: what a name denotes does not change while the program runs; a standard input is read once")
        p = vs[0].e
        return k(st, Odd("ifs", {"path": p, "fail": "!file_opens(%s)" % p, "bad": "false", "eof": "false"}))
    if t.k == "file" and not vs and "ifstream" in t.name:
        return k(st, Odd("ifs", {"path": None, "fail": "false", "bad": "false", "eof": "false"}))
    raise Unsupported("construct %r from %r" % (t, vs))


def method(ex, name, l, raw, st, node, k):
    import stl
    v = ex.val(l, st)
    vs = [ex.val(r, st) for r in raw]
    unit = lambda s: k(s, V(T_VOID, "()"))
    if isinstance(v, V) and v.ty.k == "vm":
        if name == "count":
            return stl.need_str(ex, vs[0], st, node, lambda s, e: Assume("0 <= vm_count(%s, %s)" % (v.e, e), k(s, V(T_U64, "vm_count(%s, %s)" % (v.e, e)))))
        if name in ("at",):
            return stl.need_str(ex, vs[0], st, node, lambda s, e: k(s, Odd("vmval", {"vm": v.e, "key": e})))
        if name == "clear":
            return k(l.set(ex, st, V(T_VM, "vm_empty()")), V(T_VOID, "()"))
    if isinstance(v, V) and v.ty.k == "podesc" and name == "add_options":
        return k(st, Odd("poinit", {"lv": l}))
    if isinstance(v, Odd):
        d = v.d
        if v.name == "cliparser":
            if name == "options" and isinstance(vs[0], V) and vs[0].ty.k == "podesc":
                return k(l.set(ex, st, Odd("cliparser", dict(d, desc=vs[0].e))), l)
            if name == "positional" and isinstance(vs[0], Odd):
                return k(l.set(ex, st, Odd("cliparser", dict(d, pos=vs[0].d["list"]))), l)
            if name == "run" and d["desc"] is not None:
                return k(st, Odd("parsed", {"e": "cmd_parse(%s, %s, %s)" % (d["desc"], d["pos"], d["args"])}))
        if v.name == "popos" and name == "add":
            return stl.need_str(ex, vs[0], st, node, lambda s, e: k(l.set(ex, s, Odd("popos", {"list": "%s.push((%s, %s))" % (atom(d["list"]), e, ex.num(vs[1]))})), l))
        if v.name == "posem":
            if name == "default_value":
                return k(st, Odd("posem", dict(d, dflt="OptV::%s(%s)" % (d["kind"], ex.pack(vs[0]) if d["kind"] != "Num" else ex.num(vs[0])))))
            if name == "value_name":
                return k(st, v)
        if v.name == "vmval":
            val = "vm_val(%s, %s)" % (d["vm"], d["key"])
            if name == "defaulted":
                return k(st, V(T_BOOL, "vm_dflt(%s, %s)" % (d["vm"], d["key"])))
            if name == "empty":
                return k(st, V(T_BOOL, "(vm_count(%s, %s) == 0)" % (d["vm"], d["key"])))
            if name == "as":
                t = ex.tu.ty(node).noref()
                kd = kind_of(t)
                return ex.ob("(%s is %s)" % (val, kd), "assert", "the option has a value of the type asked for", node, k(st, V(t, "%s->%s_0" % (val, kd)) if kd != "Num" else V(t, "(%s->Num_0 as int)" % val)))
        if v.name == "ifs" and d["path"] is None:
            if name == "open" and vs and stl.is_str(vs[0]):
                p = vs[0].e
                return k(l.set(ex, st, Odd("ifs", {"path": p, "fail": "!file_opens(%s)" % p, "bad": "false", "eof": "false"})), V(T_VOID, "()"))
            raise Unsupported("%s of a file that is not open" % name)
        if v.name == "ifs":
            if name in ("fail", "operator!"):
                return k(st, V(T_BOOL, "(%s)" % d["fail"]))
            if name in ("good", "is_open", "operator bool") and d["bad"] == "false":
                return k(st, V(T_BOOL, "(!(%s))" % d["fail"] if name != "is_open" else "file_opens(%s)" % d["path"]))
            if name == "bad":
                return k(st, V(T_BOOL, "(%s)" % d["bad"]))
            if name == "rdbuf":
                return k(st, Odd("filebuf", {"path": d["path"]}))
            if name in ("peek", "get") and not vs:
                # an error while reading is noted as badbit; the end of the file as eofbit (and by get as failbit)
                err = "file_breaks(%s)" % d["path"]
                nv = Odd("ifs", dict(d, fail=X.OR("(%s)" % d["fail"], err), bad=X.OR("(%s)" % d["bad"], err)))
                if name == "get":
                    raise Unsupported("get")
                return k(l.set(ex, st, nv), ex.fresh(T_INT, "peek"))
    raise Unsupported("%s of %r" % (name, v))


def stream_in(ex, l, os, b, st, k):
    """buffer << file.rdbuf()"""
    p = b.d["path"]
    s = ex.assign(l, V(os.ty, "(%s + file_text(%s))" % (os.e, p) if os.e != "Seq::<i8>::empty()" else "file_text(%s)" % p), st,
                  lambda s: k(s.put("fail:" + repr(root_key(l)), V(T_BOOL, "(file_text(%s).len() == 0 || file_breaks(%s))" % (p, p))), l))
    return s


def stream_failed(ex, l, st):
    v = st.env.get("fail:" + repr(root_key(l)))
    return v.e if v is not None else "false"


def root_key(l):
    return X.root_key(l)


def index(ex, raw, vs, st, node, k):
    import stl
    return stl.need_str(ex, vs[1], st, node, lambda s, e: k(s, Odd("vmval", {"vm": vs[0].e, "key": e})))


def declare(ex, raw, vs, st, node, k):
    """add_options()(name, [value,] description)"""
    import stl
    o = vs[0]
    l = o.d["lv"]
    sem = vs[2] if len(vs) == 4 else None
    if sem is not None and not (isinstance(sem, Odd) and sem.name == "posem"):
        raise Unsupported("option semantics")
    kd, df = ("OptK::" + sem.d["kind"], sem.d["dflt"]) if sem is not None else ("OptK::Switch", "OptV::Nothing")
    def fin(s, e):
        cur = l.get(ex, s)
        return k(l.set(ex, s, V(T_DESC, "%s.push(OptD{name: %s, kind: %s, dflt: %s})" % (atom(cur.e), e, kd, df))), o)
    return stl.need_str(ex, vs[1], st, node, fin)


def call(ex, name, raw, vs, st, node, k):
    import stl
    unit = lambda s: k(s, V(T_VOID, "()"))
    if name == "value" and not vs:
        t = ex.tu.ty(node)
        m = re.search(r"typed_value<(.*?)(?:, char)?> \*", (node.get("type") or {}).get("desugaredQualType") or node["type"]["qualType"])
        if not m:
            raise Unsupported("option value type " + node["type"]["qualType"])
        return k(st, Odd("posem", {"kind": kind_of(ex.tu.ty(m.group(1))), "dflt": "OptV::Nothing"}))
    if name == "store" and isinstance(vs[0], Odd) and vs[0].name == "parsed":
        ex.assumes.add("boost::program_options: store into an empty map either throws or yields the parsed command line (an uninterpreted function of the options, the positional names and the arguments)")
        l = raw[1]
        cur = ex.val(l, st)
        e = vs[0].d["e"]
        ok = ex.ob("(%s == vm_empty())" % cur.e, "assert", "the command line is stored into an empty map", node, k(l.set(ex, st, V(T_VM, "%s->Some_0" % e)), V(T_VOID, "()")))
        return If("(%s is Some)" % e, ok, ex.throw(st, "error", [V(T_STR, "po_error(%s)" % e)]))
    if name == "notify":
        return unit(st)          # no option has a notifier or is required
    if name == "isatty" and len(vs) == 1:
        return k(st, V(T_INT, "is_tty(%s)" % ex.num(vs[0])))
    return None
