"""Library model: std and boost operations by name and object kind, as Verus terms.

Every entry is an assumed contract on a dependency (listed in the evidence as such).
"""
from cast import *
from vals import *
import life
import exec as X
import rjson, popt


def NPOS():
    return "18446744073709551615"


def empty_seq(ex, ty):
    return "Seq::<%s>::empty()" % ex.vt(ty)[4:-1]


def default_value(ex, ty):
    if ty.k in ("str", "sv", "ostream"):
        return V(ty.noref(), "Seq::<i8>::empty()")
    if ty.k in ("vec", "mmap"):
        return V(ty.noref(), empty_seq(ex, ty))
    if ty.k in ("uptr", "opt", "fn"):
        return ex.null_of(ty)
    if ty.k in ("int", "bool", "char", "ptr"):
        return ex.zero(ty)
    if ty.k == "pair":
        return V(ty.noref(), "(%s, %s)" % tuple(ex.pack(default_value(ex, a), a) for a in ty.args))
    if ty.k == "regex":
        return V(ty.noref(), "rx_empty()")
    if ty.k == "cls":
        s = ex.schema.classes.get(ty.name)
        if s and "fields" in s:
            return Obj(ty, {n: default_value(ex, t) for n, t in s["fields"]})
    if ty.k == "other" and "match_results" in ty.name:
        return Odd("mr", {"rx": None, "s": None}, ty)
    raise Unsupported("default value of %r" % ty)


def is_str(v):
    return isinstance(v, V) and v.ty.k in ("str", "sv", "strlit")


def is_cp(v):
    return isinstance(v, Obj) and v.ty.k == "ptr"


def cp_sub(o, n):
    a = o.f["off"].e
    return "%s.subrange(%s, %s)" % (atom(o.f["buf"].e), a, X.simp("(%s + %s)" % (a, n)))


def cstr_of(ex, o):
    """content of a NUL terminated string"""
    b, off = o.f["buf"].e, o.f["off"].e
    m = re.match(r"^(.*)\.push\(0i8\)$", b)
    if off == "0" and m and balanced(m.group(1)):
        inner = m.group(1)
        if inner == "Seq::<i8>::empty()" or inner.startswith("seq![") and " 0i8" not in inner and "[0i8" not in inner:
            return inner
        return "up_to_nul(%s)" % inner
    if off == "0" and b == "seq![0i8]":
        return "Seq::<i8>::empty()"
    m = re.match(r"^(.*)\.buf$", b)
    if m and off == m.group(1) + ".off":
        return "cstr(%s)" % m.group(1)
    return "cstr(%s)" % ex.pack(o)


def as_str(ex, v, cstr_ob=None):
    """character content of a string-like value"""
    if is_str(v):
        return v.e
    if isinstance(v, V) and v.ty.k == "char":
        return "seq![%s]" % v.e
    if is_cp(v):
        return cstr_of(ex, v)
    if isinstance(v, V) and v.ty.k == "ostream":
        return v.e
    if isinstance(v, Odd) and v.name == "submatch":
        return v.d["e"]
    raise Unsupported("string from %r" % (v,))


def cp_valid(v):
    """a NUL terminated string is readable"""
    if not is_cp(v):
        return "true"
    if v.f["null"].e == "false" and v.f["buf"].e.endswith(".push(0i8)") and v.f["off"].e == "0":
        return "true"
    return X.NOT(v.f["null"].e)


def cp_wf(v):
    """null, or a position inside a buffer"""
    if v.f["off"].e == "0" or v.f["null"].e == "true":
        return "true"
    return "(%s || 0 <= %s <= %s.len())" % (v.f["null"].e, v.f["off"].e, atom(v.f["buf"].e))


def need_str(ex, v, st, node, k):
    return ex.ob(cp_valid(v), "null", "C string argument is not null", node, k(st, as_str(ex, v)))


def to_fn(ex, w, t):
    if isinstance(w, V) and w.ty.k == "nullptr":
        return ex.null_of(t)
    if isinstance(w, V) and w.ty.k == "fn":
        return V(t.noref(), w.e)
    if isinstance(w, FnRef):
        return V(t.noref(), ex.schema.fnref(ex, w.decl))
    raise Unsupported("std::function from %r" % (w,))


def to_opt(ex, w, t):
    if isinstance(w, V) and w.ty.k in ("nullopt",):
        return ex.null_of(t)
    if isinstance(w, V) and w.ty.k == "opt":
        return V(t.noref(), w.e)
    if isinstance(w, Odd) and w.name == "nullopt":
        return ex.null_of(t)
    a = t.args[0]
    if a.k == "str":
        return V(t.noref(), "Some(%s)" % as_str(ex, w))
    return V(t.noref(), "Some(%s)" % ex.pack(w, a))


def to_pair(ex, w, t):
    if isinstance(w, V) and w.ty.k == "pair":
        return V(t.noref(), w.e)
    raise Unsupported("pair from %r" % (w,))


def convert(ex, v, t):
    if isinstance(v, Odd) and v.name == "submatch" and t.k == "str":
        return V(T_STR, v.d["e"])
    if is_str(v) and t.k in ("str", "sv"):
        return V(t.noref(), v.e)
    raise Unsupported("conversion of %r to %r" % (v, t))


def elem_pack(ex, v, ty):
    if ty.k in ("str", "sv") and not isinstance(v, Odd):
        return as_str(ex, v)
    if isinstance(v, V) and v.ty.k == "nullptr":
        return ex.null_of(ty).e
    if ty.k == "fn":
        return to_fn(ex, v, ty).e
    return ex.pack(v, ty)


# ------------------------------------------------------------------ construction
def construct(ex, t, vs, st, node, k):
    raw = vs
    if t.k in ("vm", "podesc", "boost", "file"):
        return popt.construct(ex, t, raw, st, node, k)
    if t.k in ("js", "jsbuf", "jswriter", "jsalloc"):
        return rjson.construct(ex, t, raw, st, node, k)
    vals_ = [ex.val(v, st) for v in vs]
    if len(vals_) == 1 and isinstance(vals_[0], Lam):
        return k(st, vals_[0])
    ct = (node.get("ctorType") or {}).get("qualType", "")
    move = "&&" in ct and len(vs) == 1
    # drop allocator arguments
    if t.k in ("str", "sv"):
        if not vals_:
            return k(st, V(t.noref(), "Seq::<i8>::empty()"))
        v = vals_[0]
        if len(vals_) == 1:
            if is_str(v):
                if move and t.k == "str" and v.ty.k == "str":
                    return ex.move_from(raw[0], st, lambda s, w: k(s, V(t.noref(), w.e)))
                return k(st, V(t.noref(), v.e))
            if is_cp(v):
                return need_str(ex, v, st, node, lambda s, e: k(s, V(t.noref(), e)))
            if isinstance(v, Odd) and v.name == "submatch":
                return k(st, V(T_STR, v.d["e"]))
        if len(vals_) == 2:
            a, b = vals_
            if is_cp(a) and isinstance(b, V) and b.ty.k == "int":
                n = b.e
                c = X.OR("(%s == 0)" % n, "(%s && 0 <= %s && %s + %s <= %s.len())" % (X.NOT(a.f["null"].e), a.f["off"].e, a.f["off"].e, n, atom(a.f["buf"].e)))
                if n == "0":
                    c = "true"
                r = "Seq::<i8>::empty()" if n == "0" else "cp_take(%s, %s)" % (ex.pack(a), n)
                return ex.ob(c, "bounds", "characters read lie inside the buffer", node, k(st, V(t.noref(), r)))
            if isinstance(a, V) and a.ty.k == "int" and isinstance(b, V) and b.ty.k == "char":
                r = "seq![%s]" % b.e if a.e == "1" else "blanks(%s, %s)" % (a.e, b.e)
                return k(st, V(t.noref(), r))
            if isinstance(a, It) and isinstance(b, It) or is_cp(a) and is_cp(b):
                return it_range(ex, a, b, st, node, lambda s, e: k(s, V(t.noref(), e)))
            if is_str(a) and isinstance(b, V) and b.ty.k == "int":
                return method_eval(ex, "substr", LTmp(a), [b], st, node, lambda s, r: k(s, V(t.noref(), r.e)))
        if len(vals_) == 3 and is_str(vals_[0]):
            return method_eval(ex, "substr", LTmp(vals_[0]), vals_[1:], st, node, lambda s, r: k(s, V(t.noref(), r.e)))
    if t.k in ("vec", "mmap"):
        if not vals_:
            return k(st, V(t.noref(), empty_seq(ex, t)))
        v = vals_[0]
        if len(vals_) == 1 and isinstance(v, V) and v.ty.k in ("vec", "mmap"):
            if move:
                return ex.move_from(raw[0], st, lambda s, w: k(s, V(t.noref(), w.e)))
            return k(st, V(t.noref(), v.e))
        if len(vals_) == 2 and isinstance(v, It):
            return it_range(ex, vals_[0], vals_[1], st, node, lambda s, e: k(s, V(t.noref(), e)))
    if t.k == "uptr":
        if not vals_ or isinstance(vals_[0], V) and vals_[0].ty.k == "nullptr":
            return k(st, ex.null_of(t))
        v = vals_[0]
        if isinstance(v, V) and v.ty.k == "uptr":
            if is_lv_(raw[0]):
                return ex.move_from(raw[0], st, lambda s, w: k(s, V(t.noref(), w.e)))
            return k(st, V(t.noref(), v.e))
    if t.k == "opt":
        if not vals_:
            return k(st, ex.null_of(t))
        v = vals_[0]
        if move and is_lv_(raw[0]) and isinstance(v, V) and v.ty.k not in ("strlit",):
            return ex.move_from(raw[0], st, lambda s, w: k(s, to_opt(ex, w, t)))
        return k(st, to_opt(ex, v, t))
    if t.k == "pair":
        if not vals_:
            return k(st, default_value(ex, t))
        if len(vals_) == 1:
            return k(st, to_pair(ex, vals_[0], t))
        if len(vals_) == 2:
            obs = "true"
            parts = []
            s = st
            for v, r, a in zip(vals_, raw, t.args):
                if a.k in ("str", "sv"):
                    obs = X.AND(obs, cp_valid(v))
                parts.append(elem_pack(ex, v, a))
            return ex.ob(obs, "null", "C string argument is not null", node, k(st, V(t.noref(), "(%s, %s)" % tuple(parts))))
    if t.k == "fn":
        if not vals_:
            return k(st, ex.null_of(t))
        v = vals_[0]
        if isinstance(v, (FnRef,)) or isinstance(v, V):
            return k(st, to_fn(ex, v, t))
    if t.k == "regex":
        if not vals_:
            return k(st, V(t.noref(), "rx_empty()"))
        v = vals_[0]
        if len(vals_) == 1 and isinstance(v, V) and v.ty.k == "regex":
            return k(st, V(t.noref(), v.e))
        if is_str(v) or is_cp(v):
            fl = vals_[1].e if len(vals_) > 1 else "0"
            sx = as_str(ex, v)
            r = k(st, V(t.noref(), "rx_make(%s, %s)" % (sx, fl)))
            if ex.throw_k is not None:
                return If("rx_valid(%s, %s)" % (sx, fl), r, ex.throw_k(st, "regex_error", [V(T_INT, "rx_error_code(%s, %s)" % (sx, fl))]))
            return r
    if t.k == "iter":
        v = vals_[0]
        if isinstance(v, It) and len(vals_) == 1:
            return k(st, v)
        if is_cp(v):
            return k(st, It(v.f["buf"].e, v.f["off"].e, t.name == "rev", None, T_CHAR))
        if isinstance(v, It):
            return k(st, It(v.seq, v.pos, t.name == "rev", v.lv, v.elty))
    if t.k == "ostream":
        if not vals_:
            return k(st, V(t.noref(), "Seq::<i8>::empty()"))
        if is_str(vals_[0]) or is_cp(vals_[0]):
            return k(st, V(t.noref(), as_str(ex, vals_[0])))
    if t.k == "other" or t.k == "cls":
        n = t.name
        if "reverse_iterator" in n and vals_:
            v = vals_[0]
            if is_cp(v):
                return k(st, It(v.f["buf"].e, v.f["off"].e, True, None, T_CHAR))
        if "match_results" in n:
            return k(st, Odd("mr", {"rx": None, "s": None}, t))
        if "char_separator" in n:
            return k(st, Odd("charsep", {"args": [ex.pack(v) if not isinstance(v, V) else v.e for v in vals_]} | {"a": tuple(as_str(ex, v) if (is_str(v) or is_cp(v)) else v.e for v in vals_)}, t)) if False else k(st, Odd("charsep", {"a": tuple(as_str(ex, v) if (is_str(v) or is_cp(v)) else v.e for v in vals_)}, t))
        if "tokenizer" in n and len(vals_) >= 3:
            sep = vals_[2]
            return it_range(ex, vals_[0], vals_[1], st, node, lambda s, e: k(s, Odd("tokens", {"s": e, "sep": sep.d["a"]}, t)))
        if "nullopt" in n:
            return k(st, Odd("nullopt", {}))
        if "locale" in n:
            return k(st, Odd("locale", {}))
        if "regex_traits" in n and not vals_:
            return k(st, Odd("regex_traits", {}))
        if len(vals_) == 1:
            return k(st, raw[0])
        if n in ("runtime_error",):
            return k(st, Odd("exc", {"kind": n}))
        if ("allocator" in n or "char_traits" in n) and not vals_:
            return k(st, Odd("alloc", {}))
    if len(vals_) == 1 and getattr(vals_[0], "ty", None) is not None and vals_[0].ty == t:
        return k(st, vals_[0])
    raise Unsupported("construct %r from %r" % (t, vals_))


def is_lv_(v):
    return X.is_lv(v) and not isinstance(v, LTmp)


# ------------------------------------------------------------------ iterators
def it_range(ex, a, b, st, node, k):
    """sequence [a, b)"""
    if is_cp(a) and is_cp(b):
        a, b = It(a.f["buf"].e, a.f["off"].e, False, None, T_CHAR), It(b.f["buf"].e, b.f["off"].e, False, None, T_CHAR)
    if not isinstance(a, It) or not isinstance(b, It):
        raise Unsupported("range")
    lo, hi = (a.pos, b.pos) if not a.rev else (b.pos, a.pos)
    sq = atom(a.seq)
    c = "(0 <= %s && %s <= %s && %s <= %s.len())" % (lo, lo, hi, hi, sq)
    if a.seq != b.seq:
        c = X.AND("(%s =~= %s)" % (a.seq, b.seq), c)
    if lo == "0" and re.match(r"^\(%s\.len\(\) as int\)$" % re.escape(sq), hi):
        e, c = a.seq, "true" if a.seq == b.seq else c
    else:
        e = "%s.subrange(%s, %s)" % (sq, lo, hi)
    if a.rev:
        e = "rev(%s)" % e
    return ex.ob(c, "bounds", "iterator range is valid", node, k(st, e))


def it_deref(ex, it, st, node, k):
    i = it.pos if not it.rev else X.simp("(%s - 1)" % it.pos)
    c = "(0 <= %s && %s < %s.len())" % (i, i, atom(it.seq))
    def go():
        if it.lv is not None:
            return k(st, LIdx(it.lv, i, it.elty))
        return k(st, LTmp(ex.unpack(it.elty, "%s[%s]" % (atom(it.seq), i))))
    return ex.ob(c, "bounds", "iterator points at an element when dereferenced", node, go())


def it_add(ex, it, d, st, node, k):
    e = X.simp("(%s %s %s)" % (it.pos, "-" if it.rev else "+", d))
    if d == "-1":
        e = X.simp("(%s %s 1)" % (it.pos, "+" if it.rev else "-"))
    n = It(it.seq, e, it.rev, it.lv, it.elty)
    return ex.ob("(0 <= %s && %s <= %s.len())" % (e, e, atom(it.seq)), "bounds", "iterator stays inside its range", node, k(st, n))


def it_cmp(ex, op, a, b, st, node, k):
    if a.rev and op in ("<", ">", "<=", ">="):
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
    return k(st, V(T_BOOL, "(%s %s %s)" % (a.pos, op, b.pos)))


def begin_end(ex, l, name, st):
    v = ex.val(l, st)
    if isinstance(v, V) and v.ty.k == "rulevec":
        raise Unsupported("iterator over nested rules")
    if not isinstance(v, V):
        raise Unsupported("iterator of %r" % (v,))
    et = X.elem_ty(v)
    ln = "(%s.len() as int)" % atom(v.e)
    rev = "r" in name.replace("cr", "r")[:2] and name.lstrip("c").startswith("r")
    isend = name.endswith("end")
    pos = ln if isend != rev else "0"
    return It(v.e, pos, rev, l if is_lv_(l) else None, et)


# ------------------------------------------------------------------ member functions
def method(ex, name, l, argnodes, st, node, k):
    return ex.xs(argnodes, st, lambda s, vs: method_eval(ex, name, l, vs, s, node, k))


def method_eval(ex, name, l, raw, st, node, k):
    v = ex.val(l, st)
    if popt.mine(v):
        return popt.method(ex, name, l, raw, st, node, k)
    if isinstance(v, V) and v.ty.k in ("js", "jsbuf"):
        return rjson.method(ex, name, l, raw, st, node, k)
    vs = [ex.val(r, st) for r in raw]
    if isinstance(v, V) and v.ty.k in ("str", "sv", "strlit"):
        return str_method(ex, name, l, v, vs, raw, st, node, k)
    if isinstance(v, V) and v.ty.k in ("vec", "mmap"):
        return vec_method(ex, name, l, v, vs, raw, st, node, k)
    if isinstance(v, V) and v.ty.k == "rulevec":
        if name == "size":
            return k(st, V(T_U64, X.seq_len(v)))
        if name == "empty":
            return k(st, V(T_BOOL, "(%s == 0)" % X.seq_len(v)))
        if name in ("at", "front", "back"):
            i = vs[0].e if vs else ("0" if name == "front" else X.simp("(%s - 1)" % X.seq_len(v)))
            return ex.ob("(0 <= %s && %s < %s)" % (i, i, X.seq_len(v)), "bounds", "index lies inside the vector", node, k(st, LRule("r_nest(%s, %s)" % (v.e, i))))
    if isinstance(v, V) and v.ty.k in ("uptr", "ruleuptr"):
        if name == "get":
            if v.ty.k == "ruleuptr":
                return k(st, V(T_RULEP, v.e))
            return k(st, Ptr(LSome(l, v.ty.args[0], True), ex.truth(v), Ty("ptr", v.ty.args)))
        if name == "swap":
            o = raw[0]
            w = o.get(ex, st)
            s = l.set(ex, st, w)
            return k(o.set(ex, s, v), V(T_VOID, "()"))
        if name == "reset":
            if vs:
                raise Unsupported("unique_ptr::reset(ptr)")
            return k(l.set(ex, st, ex.null_of(v.ty)), V(T_VOID, "()"))
    if isinstance(v, V) and v.ty.k == "opt":
        if name in ("has_value",):
            return k(st, V(T_BOOL, ex.truth(v)))
        if name == "value":
            return ex.deref_lv(l, st, node, k)
        if name == "reset":
            return k(l.set(ex, st, ex.null_of(v.ty)), V(T_VOID, "()"))
        if name == "swap":
            o = raw[0]
            w = o.get(ex, st)
            return k(o.set(ex, l.set(ex, st, w), v), V(T_VOID, "()"))
        if name == "emplace":
            if v.ty.args[0].k == "regex":
                return construct(ex, v.ty.args[0], raw, st, node, lambda s, r: k(l.set(ex, s, V(v.ty, "Some(%s)" % r.e)), l))
        if name == "value_or":
            return k(st, V(v.ty.args[0], "(match %s { Some(x) => x, None => %s })" % (v.e, ex.pack(vs[0], v.ty.args[0]))))
    if isinstance(v, V) and v.ty.k == "ostream":
        if name == "str" and not vs:
            return k(st, V(T_STR, v.e))
        if name in ("fail", "operator!"):
            return k(st, V(T_BOOL, popt.stream_failed(ex, l, st)))
        if name == "put":
            return k(l.set(ex, st, V(v.ty, "%s.push(%s)" % (atom(v.e), vs[0].e))), l)
        if name == "write":
            e = "cp_take(%s, %s)" % (ex.pack(vs[0]), vs[1].e)
            return k(l.set(ex, st, V(v.ty, "%s + %s" % (atom(v.e), e))), l)
        if name == "flush":
            return k(st, l)
    if isinstance(v, It):
        if name == "base":
            return k(st, It(v.seq, v.pos, False, v.lv, v.elty))
    if isinstance(v, Odd):
        if v.name == "mr":
            if name == "size":
                return k(st, V(T_U64, "rx_groups(%s)" % v.d["rx"]))
            if name == "empty":
                return k(st, V(T_BOOL, "(rx_groups(%s) == 0)" % v.d["rx"]))
            if name == "str":
                i = vs[0].e if vs else "0"
                return k(st, V(T_STR, "rx_group(%s, %s, %s)" % (v.d["rx"], v.d["s"], i)))
        if v.name == "submatch":
            if name == "str":
                return k(st, V(T_STR, v.d["e"]))
        if v.name == "exc" and name == "code" and v.d["kind"] == "regex_error" and v.d["arg"] is not None:
            return k(st, v.d["arg"])
        if v.name == "regex_traits" and name == "error_string":
            return k(st, V(T_STR, "rx_error_text(%s)" % ex.num(vs[0])))
        if v.name == "exc" and name == "what":
            if isinstance(v.d["arg"], V) and v.d["arg"].ty.k == "str":
                return k(st, X.mk_cp("false", "%s.push(0i8)" % atom(v.d["arg"].e), "0"))
            return X.Assume("!exc_what().null && 0 <= exc_what().off <= exc_what().buf.len()", k(st, ex.unpack(T_CP, "exc_what()")))
    if isinstance(v, V) and v.ty.k == "fn" and name == "swap":
        o = raw[0]
        w = o.get(ex, st)
        return k(o.set(ex, l.set(ex, st, w), v), V(T_VOID, "()"))
    raise Unsupported("member function %s of %r" % (name, v))


def upd(ex, l, e, st, k, ty=None):
    v = ex.val(l, st)
    return ex.assign(l, V(ty or v.ty, e), st, k)


def str_method(ex, name, l, v, vs, raw, st, node, k):
    a = atom(v.e)
    ln = "(%s.len() as int)" % a
    if name in ("size", "length"):
        return ex.len_bound(ln, k(st, V(T_U64, ln)))
    if name == "empty":
        return k(st, V(T_BOOL, "(%s.len() == 0)" % a))
    if name in ("c_str", "data"):
        if v.ty.k == "sv":
            return k(st, X.mk_cp("false", v.e, "0"))
        p = X.mk_cp("false", a + ".push(0i8)", "0")
        p.src = l
        return k(st, p)
    if name in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "crbegin", "crend"):
        return k(st, begin_end(ex, l, name, st))
    if name in ("at", "operator[]"):
        i = ex.num(vs[0])
        if name == "at" and ex.throw_k is not None:
            return If("(0 <= %s && %s < %s)" % (i, i, ln), k(st, LIdx(l, i, T_CHAR)), ex.throw(st, "out_of_range", []))
        return ex.ob("(0 <= %s && %s < %s)" % (i, i, ln), "bounds", "string index is in range", node, k(st, LIdx(l, i, T_CHAR)))
    if name in ("front", "back"):
        i = "0" if name == "front" else "(%s - 1)" % ln
        return ex.ob("(%s.len() > 0)" % a, "bounds", "string is not empty", node, k(st, LIdx(l, i, T_CHAR)))
    if name == "push_back":
        return upd(ex, l, "%s.push(%s)" % (a, vs[0].e), st, lambda s: k(s, V(T_VOID, "()")))
    if name == "pop_back":
        return ex.ob("(%s.len() > 0)" % a, "bounds", "string is not empty", node, upd(ex, l, "%s.drop_last()" % a, st, lambda s: k(s, V(T_VOID, "()"))))
    if name == "clear":
        return upd(ex, l, "Seq::<i8>::empty()", st, lambda s: k(s, V(T_VOID, "()")))
    if name == "reserve" or name == "shrink_to_fit":
        return k(st, V(T_VOID, "()"))
    if name in ("append", "assign"):
        base = v.e if name == "append" else None
        def fin(s, e):
            if base is None:
                r = e
            elif e.startswith("seq![") and e.count(",") == 0:
                r = "%s.push(%s)" % (a, e[5:-1])
            else:
                r = "(%s + %s)" % (base, e) if base != "Seq::<i8>::empty()" else e
            return upd(ex, l, r, s, lambda s2: k(s2, l))
        if len(vs) == 1:
            return need_str(ex, vs[0], st, node, fin)
        if len(vs) == 2:
            if isinstance(vs[0], It) or is_cp(vs[0]) and is_cp(vs[1]):
                return it_range(ex, vs[0], vs[1], st, node, fin)
            return construct(ex, T_STR, raw, st, {}, lambda s, r: fin(s, r.e))
    if name == "insert":
        if len(vs) == 2 and isinstance(vs[0], V) and vs[0].ty.k == "int" and (is_str(vs[1]) or is_cp(vs[1])):
            i = ex.num(vs[0])
            def fin(s, e):
                r = "(%s + %s)" % (e, v.e) if i == "0" else "(%s.subrange(0, %s) + %s + %s.subrange(%s, %s))" % (a, i, e, a, i, ln)
                return upd(ex, l, r, s, lambda s2: k(s2, l))
            body = need_str(ex, vs[1], st, node, fin)
            return ex.ob("(0 <= %s && %s <= %s)" % (i, i, ln), "bounds", "insert position is in range", node, body) if i != "0" else body
        if len(vs) == 3 and isinstance(vs[0], V) and vs[0].ty.k == "int" and isinstance(vs[2], V) and vs[2].ty.k == "char":
            i, n = ex.num(vs[0]), vs[1].e
            e = "blanks(%s, %s)" % (n, vs[2].e)
            r = "(%s.subrange(0, %s) + %s + %s.subrange(%s, %s))" % (a, i, e, a, i, ln)
            return ex.ob("(0 <= %s && %s <= %s)" % (i, i, ln), "bounds", "insert position is in range", node, upd(ex, l, r, st, lambda s2: k(s2, l)))
    if name == "erase":
        if not vs:
            return upd(ex, l, "Seq::<i8>::empty()", st, lambda s: k(s, l))
        if isinstance(vs[0], It):
            p = vs[0].pos
            q = vs[1].pos if len(vs) > 1 else "(%s + 1)" % p
            c = "(0 <= %s && %s <= %s && %s <= %s)" % (p, p, q, q, ln)
            return ex.ob(c, "bounds", "erased range lies inside the string", node,
                         upd(ex, l, "(%s.subrange(0, %s) + %s.subrange(%s, %s))" % (a, p, a, q, ln), st, lambda s: k(s, It(ex.val(l, s).e, p, False, l, T_CHAR))))
        p = ex.num(vs[0])
        if len(vs) == 1 or vs[1].e == NPOS():
            r = "%s.subrange(0, %s)" % (a, p)
        else:
            q = "min(%s + %s, %s)" % (p, vs[1].e, ln)
            r = "(%s.subrange(0, %s) + %s.subrange(%s, %s))" % (a, p, a, q, ln)
        return ex.ob("(0 <= %s && %s <= %s)" % (p, p, ln), "bounds", "erase position is in range", node, upd(ex, l, r, st, lambda s: k(s, l)))
    if name == "resize":
        n = ex.num(vs[0])
        fillc = vs[1].e if len(vs) > 1 else "0i8"
        return upd(ex, l, "str_resize(%s, %s, %s)" % (v.e, n, fillc), st, lambda s: k(s, V(T_VOID, "()")))
    if name == "substr":
        p = ex.num(vs[0]) if vs else "0"
        if len(vs) > 1 and vs[1].e != NPOS():
            r = "%s.subrange(%s, min(%s + %s, %s))" % (a, p, p, ex.num(vs[1]), ln)
        else:
            r = "%s.subrange(%s, %s)" % (a, p, ln)
        return ex.ob("(0 <= %s && %s <= %s)" % (p, p, ln), "bounds", "substr position is in range", node, k(st, V(v.ty if v.ty.k != "strlit" else T_STR, r)))
    if name == "compare":
        if len(vs) == 1:
            return need_str(ex, vs[0], st, node, lambda s, e: k(s, V(T_INT, "str_cmp(%s, %s)" % (v.e, e))))
        if len(vs) >= 3:
            p, n = ex.num(vs[0]), ex.num(vs[1])
            sub = "%s.subrange(%s, min(%s + %s, %s))" % (a, p, p, n, ln)
            c = "(0 <= %s && %s <= %s)" % (p, p, ln)
            if len(vs) == 3:
                return ex.ob(c, "bounds", "compare position is in range", node, need_str(ex, vs[2], st, node, lambda s, e: k(s, V(T_INT, "str_cmp(%s, %s)" % (sub, e)))))
            if len(vs) == 4 and is_cp(vs[2]):
                o, m = vs[2], ex.num(vs[3])
                c2 = "(%s && 0 <= %s && %s + %s <= %s.len())" % (X.NOT(o.f["null"].e), o.f["off"].e, o.f["off"].e, m, atom(o.f["buf"].e))
                return ex.ob(c, "bounds", "compare position is in range", node,
                             ex.ob(c2, "bounds", "compared characters lie inside the buffer", node,
                                   k(st, V(T_INT, "str_cmp(%s, cp_take(%s, %s))" % (sub, ex.pack(o), m)))))
            if len(vs) == 5:
                p2, n2 = ex.num(vs[3]), ex.num(vs[4])
                b = atom(as_str(ex, vs[2]))
                sub2 = "%s.subrange(%s, min(%s + %s, %s.len() as int))" % (b, p2, p2, n2, b)
                return ex.ob(X.AND(c, "(0 <= %s && %s <= %s.len())" % (p2, p2, b)), "bounds", "compare position is in range", node,
                             k(st, V(T_INT, "str_cmp(%s, %s)" % (sub, sub2))))
    if name in ("find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of"):
        if len(vs) <= 2:
            w = vs[0]
            pos = ex.num(vs[1]) if len(vs) > 1 else None
            def fin(s, t):
                fn = {"find": "s_find", "rfind": "s_rfind", "find_first_of": "s_find_first_of", "find_first_not_of": "s_find_first_not_of",
                      "find_last_of": "s_find_last_of", "find_last_not_of": "s_find_last_not_of"}[name]
                p = pos if pos is not None else ("0" if "last" not in name and name != "rfind" else NPOS())
                return ex.len_bound(ln, k(s, V(T_U64, "pos64(%s(%s, %s, %s))" % (fn, v.e, t, p))))
            return need_str(ex, w, st, node, fin)
    if name == "swap":
        o = raw[0]
        w = o.get(ex, st)
        return k(o.set(ex, l.set(ex, st, w), v), V(T_VOID, "()"))
    if name == "remove_prefix":
        n = ex.num(vs[0])
        return ex.ob("(%s <= %s)" % (n, ln), "bounds", "remove_prefix stays inside the view", node, upd(ex, l, "%s.subrange(%s, %s)" % (a, n, ln), st, lambda s: k(s, V(T_VOID, "()"))))
    if name == "remove_suffix":
        n = ex.num(vs[0])
        return ex.ob("(%s <= %s)" % (n, ln), "bounds", "remove_suffix stays inside the view", node, upd(ex, l, "%s.subrange(0, %s - %s)" % (a, ln, n), st, lambda s: k(s, V(T_VOID, "()"))))
    raise Unsupported("string member function %s/%d" % (name, len(vs)))


def vec_method(ex, name, l, v, vs, raw, st, node, k, lives=False):
    a = atom(v.e)
    ln = "(%s.len() as int)" % a
    et = X.elem_ty(v)
    unit = lambda s: k(s, V(T_VOID, "()"))
    if name in ("size",):
        return ex.len_bound(ln, k(st, V(T_U64, ln)))
    if name == "empty":
        return k(st, V(T_BOOL, "(%s.len() == 0)" % a))
    if name == "reserve":
        return unit(life.room(ex, l, ex.num(vs[0]), st))
    if name == "shrink_to_fit":
        return unit(st)
    if name == "clear":
        return life.moved(ex, l, st, node, lambda s: upd(ex, l, empty_seq(ex, v.ty), s, unit), name) if et.k == "str" else upd(ex, l, empty_seq(ex, v.ty), st, unit)
    if name in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "crbegin", "crend"):
        return k(st, begin_end(ex, l, name, st))
    if name in ("operator[]", "at"):
        i = ex.num(vs[0])
        return ex.ob("(0 <= %s && %s < %s)" % (i, i, ln), "bounds", "index lies inside the vector", node, k(st, LIdx(l, i, et)))
    if name == "back":
        return ex.ob("(%s.len() > 0)" % a, "bounds", "back() of a non-empty vector", node, k(st, LLast(l, et)))
    if name == "front":
        return ex.ob("(%s.len() > 0)" % a, "bounds", "front() of a non-empty vector", node, k(st, LIdx(l, "0", et)))
    if name == "pop_back":
        return ex.ob("(%s.len() > 0)" % a, "bounds", "pop_back() of a non-empty vector", node, upd(ex, l, "%s.drop_last()" % a, st, unit))
    if name in ("push_back", "emplace_back") and et.k in ("str", "cls") and (et.k == "str" or life.is_doc(et)) and not lives:
        def go(s):
            return vec_method(ex, name, l, v, vs, raw, s, node, k, True)
        return life.grow(ex, l, ln, st, node, go) if et.k == "str" else life.keep(ex, l, vs, st, node, go)
    if name in ("push_back", "emplace_back"):
        if name == "emplace_back" and len(vs) != 1:
            if et.k == "pair" and len(vs) == 2:
                e = "(%s, %s)" % tuple(elem_pack(ex, x, t) for x, t in zip(vs, et.args))
                return upd(ex, l, "%s.push(%s)" % (a, e), st, lambda s: k(s, LLast(l, et)))
            if et.k == "cls" and et.name in ex.tu.records:
                return ex.construct(et, raw, st, None, lambda s, o: upd(ex, l, "%s.push(%s)" % (a, ex.pack(ex.val(o, s), et)), s, lambda s2: k(s2, LLast(l, et))))
            if not vs:
                return upd(ex, l, "%s.push(%s)" % (a, ex.pack(default_value(ex, et), et)), st, lambda s: k(s, LLast(l, et)))
            raise Unsupported("emplace_back with %d arguments" % len(vs))
        def push(s, w):
            return upd(ex, l, "%s.push(%s)" % (a, elem_pack(ex, w, et)), s, lambda s2: k(s2, LLast(l, et)) if name == "emplace_back" else unit(s2))
        callee = node["inner"][0] if node else {}
        q = callee.get("type", {}).get("qualType", "")
        isxv = node and len(node["inner"]) > 1 and node["inner"][1].get("valueCategory") == "xvalue"
        if isxv and is_lv_(raw[0]) and et.k in ("uptr", "vec", "str", "cls", "mmap", "opt"):
            return ex.move_from(raw[0], st, lambda s, w: push(s, w))
        if et.k == "uptr" and is_lv_(raw[0]):
            return ex.move_from(raw[0], st, lambda s, w: push(s, w))
        if et.k == "cls" and is_lv_(raw[0]) and not isxv:
            return ex.construct(et, [raw[0]], st, None, lambda s, o: push(s, ex.val(o, s)))
        return push(st, vs[0])
    if name == "insert":
        if v.ty.k == "mmap":
            if len(vs) == 2:
                return it_range(ex, vs[0], vs[1], st, node, lambda s, e: upd(ex, l, "mm_insert_all(%s, %s)" % (v.e, e), s, unit))
            return upd(ex, l, "mm_insert(%s, %s)" % (v.e, elem_pack(ex, vs[0], et)), st, unit)
        if len(vs) == 3 and isinstance(vs[0], It) and isinstance(vs[1], It):
            p = vs[0].pos
            def fin(s, e):
                if p == ln:
                    r = "(%s + %s)" % (v.e, e)
                else:
                    r = "(%s.subrange(0, %s) + %s + %s.subrange(%s, %s))" % (a, p, e, a, p, ln)
                return upd(ex, l, r, s, lambda s2: k(s2, It(ex.val(l, s2).e, p, False, l, et)))
            return it_range(ex, vs[1], vs[2], st, node, fin)
        if len(vs) == 2 and isinstance(vs[0], It):
            p = vs[0].pos
            e = elem_pack(ex, vs[1], et)
            return upd(ex, l, "%s.insert(%s, %s)" % (a, p, e), st, lambda s2: k(s2, It(ex.val(l, s2).e, p, False, l, et)))
    if name == "emplace" and v.ty.k == "mmap":
        e = "(%s, %s)" % tuple(elem_pack(ex, x, t) for x, t in zip(vs, et.args)) if len(vs) == 2 else elem_pack(ex, vs[0], et)
        return upd(ex, l, "mm_insert(%s, %s)" % (v.e, e), st, unit)
    if name == "swap":
        o = raw[0]
        w = o.get(ex, st)
        if is_lv_(o) and o.key() == l.key():
            return unit(st)
        return unit(o.set(ex, l.set(ex, st, w), v))
    if name == "erase" and isinstance(vs[0], It):
        p = vs[0].pos
        q = vs[1].pos if len(vs) > 1 else "(%s + 1)" % p
        c = "(0 <= %s && %s <= %s && %s <= %s)" % (p, p, q, q, ln)
        return ex.ob(c, "bounds", "erased range lies inside the vector", node,
                     upd(ex, l, "(%s.subrange(0, %s) + %s.subrange(%s, %s))" % (a, p, a, q, ln), st, lambda s: k(s, It(ex.val(l, s).e, p, False, l, et))))
    if name == "resize" and len(vs) == 1 and v.ty.k == "vec":
        n_ = ex.num(vs[0])
        d_ = ex.pack(default_value(ex, et), et)
        m_ = re.match(r"^(?:wrap_u64\()?\(?\(%s \+ (\d+)\)\)?$" % re.escape(ln), n_)
        if m_ and int(m_.group(1)) <= 4:
            return ex.ob("%s <= 0x7fff_ffff_ffff_fff0" % ln, "overflow", "the new size of the vector does not wrap", node, upd(ex, l, a + ".push(%s)" % d_ * int(m_.group(1)), st, unit)) if not n_.startswith("wrap") else ex.len_bound(ln, upd(ex, l, a + (".push(%s)" % d_) * int(m_.group(1)), st, unit))
        raise Unsupported("vector::resize")
    if v.ty.k == "mmap":
        if name == "count":
            return k(st, V(T_U64, "mm_count(%s, %s)" % (v.e, as_str(ex, vs[0]))))
        if name in ("lower_bound", "upper_bound"):
            key = as_str(ex, vs[0])
            return k(st, It(v.e, "mm_%s(%s, %s, 0)" % (name[:5], v.e, key), False, l if is_lv_(l) else None, et))
        if name == "equal_range":
            key = as_str(ex, vs[0])
            return k(st, Odd("itpair", {"a": It(v.e, "mm_lower(%s, %s, 0)" % (v.e, key), False, None, et), "b": It(v.e, "mm_upper(%s, %s, 0)" % (v.e, key), False, None, et)}))
    raise Unsupported("vector member function %s/%d" % (name, len(vs)))


# ------------------------------------------------------------------ free functions
def call(ex, name, args, st, node, k):
    return ex.xs(args, st, lambda s, raw: call_eval(ex, name, raw, args, s, node, k))


def call_eval(ex, name, raw, args, st, node, k):
    vs = [ex.val(r, st) for r in raw]
    n = len(vs)
    unit = lambda s: k(s, V(T_VOID, "()"))
    if name in ("value", "store", "notify", "isatty"):
        r = popt.call(ex, name, raw, vs, st, node, k)
        if r is not None:
            return r
    if name == "find" and n == 3 and isinstance(vs[0], It) and vs[0].elty == T_CP and not vs[0].rev and isinstance(vs[1], It) and vs[1].seq == vs[0].seq and (is_str(vs[2]) or is_cp(vs[2])):
        # an argument is compared with a string by its characters
        return need_str(ex, vs[2], st, node, lambda s, e: ex.ob("(0 <= %s && %s == %s.len())" % (vs[0].pos, vs[1].pos, vs[0].seq), "bounds", "the arguments are searched to their end", node,
                                                               k(s, It(vs[0].seq, "arg_index(%s, %s, %s)" % (vs[0].seq, e, vs[0].pos), False, None, T_CP))))
    if name == "sync_with_stdio":
        return k(st, V(T_BOOL, "true"))
    if name in ("StrError", "strerror") and n == 1:
        ex.assumes.add("the text that describes a system error is some string")
        return k(st, ex.fresh(T_STR, "strerror"))
    if name == "__errno_location":
        return k(st, Ptr(LTmp(ex.fresh(T_INT, "errno")), "true", Ty("ptr", (T_INT,))))
    if name in ("move", "forward") and n == 1:
        return k(st, raw[0])            # xvalue of the same object; the consumer moves
    if name == "move" and n == 3 or name == "copy" and n == 3:
        if isinstance(vs[2], Odd) and vs[2].name == "back_inserter":
            tgt = vs[2].d["lv"]
            def fin(s, e):
                cur = tgt.get(ex, s)
                r = "(%s + %s)" % (cur.e, e)
                s2 = s
                return ex.assign(tgt, V(cur.ty, r), s2, lambda s3: move_tail(s3))
            def move_tail(s):
                it = vs[0]
                if name == "move" and isinstance(it, It) and it.lv is not None and it.elty.k not in ("pair", "int", "char", "ptr", "bool"):
                    cur = it.lv.get(ex, s)
                    s = it.lv.set(ex, s, ex.fresh(cur.ty, "moved"))
                return k(s, vs[2])
            return it_range(ex, vs[0], vs[1], st, node, fin)
    if name in ("back_inserter", "inserter"):
        return k(st, Odd("back_inserter", {"lv": raw[0]}))
    if name in ("begin", "end", "cbegin", "cend", "rbegin", "rend") and n == 1:
        return k(st, begin_end(ex, raw[0], name, st))
    if name in ("next", "prev") and n >= 1 and isinstance(vs[0], (It, Obj)):
        d = ex.num(vs[1]) if n > 1 else "1"
        if isinstance(vs[0], It):
            return it_add(ex, vs[0], d if name == "next" else "(-%s)" % d, st, node, k)
        return ex.binop("+" if name == "next" else "-", vs[0], V(T_I64, d), None, st, node, k)
    if name == "advance" and n == 2 and isinstance(vs[0], It):
        return it_add(ex, vs[0], ex.num(vs[1]), st, node, lambda s, it: unit(raw[0].set(ex, s, it)))
    if name == "distance":
        a, b = vs
        if is_cp(a) and isinstance(b, It) or isinstance(a, It) and is_cp(b):
            a, b = [It(v.f["buf"].e, v.f["off"].e, False, None, T_CHAR) if is_cp(v) else v for v in (a, b)]
        if is_cp(a):
            return ex.ob("(%s%s <= %s)" % ("" if a.f["buf"].e == b.f["buf"].e else "%s =~= %s && " % (a.f["buf"].e, b.f["buf"].e), a.f["off"].e, b.f["off"].e), "bounds", "distance of an ordered range in one buffer", node, k(st, V(T_I64, X.simp("(%s - %s)" % (b.f["off"].e, a.f["off"].e)))))
        d = "(%s - %s)" % (b.pos, a.pos) if not a.rev else "(%s - %s)" % (a.pos, b.pos)
        return k(st, V(T_I64, X.simp(d)))
    if name == "count" and n == 3:
        return it_range(ex, vs[0], vs[1], st, node, lambda s, e: k(s, V(T_I64, "s_count(%s, %s)" % (e, elem_pack(ex, vs[2], T_CHAR)))))
    if name == "find" and n == 3:
        a = vs[0]
        def fin(s, e):
            i = "s_index_of(%s, %s)" % (e, elem_pack(ex, vs[2], T_CHAR))
            if isinstance(a, It):
                return k(s, It(a.seq, X.simp("(%s %s %s)" % (a.pos, "-" if a.rev else "+", i)), a.rev, a.lv, a.elty))
            return k(s, X.mk_cp(a.f["null"].e, a.f["buf"].e, X.simp("(%s + %s)" % (a.f["off"].e, i))))
        return it_range(ex, vs[0], vs[1], st, node, fin)
    if name == "equal" and n in (3, 4):
        def fin(s, e1):
            c = vs[2]
            if n == 4:
                return it_range(ex, vs[2], vs[3], s, node, lambda s2, e2: k(s2, V(T_BOOL, "(%s =~= %s)" % (e1, e2))))
            if is_cp(c):
                c = It(c.f["buf"].e, c.f["off"].e, False, None, T_CHAR)
            m = "(%s.len() as int)" % atom(e1)
            if not c.rev:
                rng = "%s.subrange(%s, %s)" % (atom(c.seq), c.pos, X.simp("(%s + %s)" % (c.pos, m)))
                ok = "(0 <= %s && %s + %s <= %s.len())" % (c.pos, c.pos, m, atom(c.seq))
            else:
                rng = "rev(%s.subrange(%s, %s))" % (atom(c.seq), X.simp("(%s - %s)" % (c.pos, m)), c.pos)
                ok = "(0 <= %s - %s && %s <= %s.len())" % (c.pos, m, c.pos, atom(c.seq))
            return ex.ob(ok, "bounds", "second range of std::equal is long enough", node, k(s, V(T_BOOL, "(%s =~= %s)" % (e1, rng))))
        return it_range(ex, vs[0], vs[1], st, node, fin)
    if name in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "for_each", "count_if") and n == 3 and isinstance(vs[2], (Lam, FnRef)):
        return algo_loop(ex, name, vs, raw, st, node, k)
    if name == "swap" and n == 2:
        a, b = raw
        va, vb = a.get(ex, st), b.get(ex, st)
        if isinstance(va, (V, Obj)) and va.ty.k == "cls":
            # generic std::swap: move construct, move assign, move assign
            return k(b.set(ex, a.set(ex, st, vb), va), V(T_VOID, "()"))
        return k(b.set(ex, a.set(ex, st, vb), va), V(T_VOID, "()"))
    if name == "exchange" and n == 2:
        l = raw[0]
        cur = l.get(ex, st)
        v = ex.conv_to(vs[1], l, st)
        return k(l.set(ex, st, v), cur)
    if name in ("as_const",):
        return k(st, raw[0])
    if name == "addressof":
        return k(st, ex.addr(raw[0], st))
    if name in ("min", "max") and n == 2:
        x, y = ex.num(vs[0]), ex.num(vs[1])
        return k(st, V(vs[0].ty, "%s(%s, %s)" % (name, x, y)))
    if name in ("make_unique",):
        t = ex.tu.ty(node)
        if t.k != "uptr":
            # look for the template argument in the return type
            q = node["type"].get("qualType", "")
            m = re.search(r"<([\w:]+)>", q)
            if not m:
                raise Unsupported("make_unique type " + q)
            ct = ex.tu.ty(m.group(1))
        else:
            ct = t.args[0]
        def fin(s, o):
            o = ex.val(o, s)
            return k(s, V(Ty("uptr", (ct,)), "Some(Box::new(%s))" % ex.pack(o)))
        # std::move'd / forwarded arguments: construct decides copy or move by value category
        nd = {"ctorType": {"qualType": "void (%s &&)" % ct.name}} if n == 1 and args and args[0].get("valueCategory") in ("xvalue", "prvalue") and ex.same_class(raw[0], ct, st) else None
        return ex.construct(ct, raw, st, nd, fin, args)
    if name == "make_reverse_iterator" and n == 1:
        if is_cp(vs[0]):
            return k(st, It(vs[0].f["buf"].e, vs[0].f["off"].e, True, None, T_CHAR))
        if isinstance(vs[0], It) and not vs[0].rev:
            return k(st, It(vs[0].seq, vs[0].pos, True, vs[0].lv, vs[0].elty))
    if name == "make_pair" and n == 2:
        t = ex.tu.ty(node)
        parts = [elem_pack(ex, v, a) for v, a in zip(vs, t.args)]
        return k(st, V(t.noref(), "(%s, %s)" % tuple(parts)))
    if name == "make_optional":
        t = ex.tu.ty(node)
        return k(st, to_opt(ex, vs[0], t))
    if name in ("strlen",):
        return need_str(ex, vs[0], st, node, lambda s, e: k(s, V(T_U64, "(%s.len() as int)" % atom(e))))
    if name == "strcmp":
        return need_str(ex, vs[0], st, node, lambda s, a: need_str(ex, vs[1], s, node, lambda s2, b: k(s2, V(T_INT, "str_cmp(%s, %s)" % (a, b)))))
    if name in ("strncmp", "memcmp") and is_cp(vs[0]) and is_cp(vs[1]):
        m = ex.num(vs[2])
        if name == "strncmp":
            return need_str(ex, vs[0], st, node, lambda s, a: need_str(ex, vs[1], s, node, lambda s2, b: k(s2, V(T_INT, "str_cmp(str_take(%s, %s), str_take(%s, %s))" % (a, m, b, m)))))
        c = X.AND(*["(%s && 0 <= %s && %s + %s <= %s.len())" % (X.NOT(o.f["null"].e), o.f["off"].e, o.f["off"].e, m, atom(o.f["buf"].e)) for o in vs[:2]])
        return ex.ob(c, "bounds", "compared characters lie inside the buffers", node, k(st, V(T_INT, "str_cmp(cp_take(%s, %s), cp_take(%s, %s))" % (ex.pack(vs[0]), m, ex.pack(vs[1]), m))))
    if name == "strchr":
        raise Unsupported("strchr")
    if name in ("isprint", "isspace", "isdigit", "isalpha", "tolower", "toupper", "isalnum", "isupper", "islower") and n == 1:
        x = ex.num(vs[0])
        return ex.ob("(-1 <= %s && %s <= 255)" % (x, x), "ctype", "argument of std::%s is an unsigned char value or EOF" % name, node,
                     k(st, V(T_INT, "c_%s(%s)" % (name, x))))
    if name == "abs" and n == 1:
        x = ex.num(vs[0])
        t = ex.tu.ty(node)
        return ex.ob("(%s > %d)" % (x, RANGE[t.name][0]), "overflow", "abs does not overflow", node, k(st, V(t, "(if %s < 0 { -%s } else { %s })" % (x, atom(x), x))))
    if name == "to_string":
        return k(st, V(T_STR, "dec(%s)" % ex.num(vs[0])))
    if name in ("stoi", "stol", "stoul"):
        t = ex.tu.ty(node)
        e = as_str(ex, vs[0])
        r = k(st, V(t, "(%s_val(%s))" % (name, e)))
        return If("%s_ok(%s)" % (name, e), If("%s_fits(%s)" % (name, e), r, ex.throw(st, "out_of_range", [])), ex.throw(st, "invalid_argument", []))
    if name == "operator+" or name == "operator==":
        return operator(ex, name[8:], raw, st, node, k, {})
    if name == "exchange" and n == 2:
        w = ex.null_of(vs[0].ty) if isinstance(vs[1], V) and vs[1].ty.k == "nullptr" else ex.coerce(vs[1], vs[0].ty)
        return k(raw[0].set(ex, st, w), vs[0])
    # ---- gumbo
    if name in ("gumbo_parse_with_options", "gumbo_destroy_output"):
        al = st.env.get("ghost:alive")
        if al is None:
            raise Unsupported("documents are parsed or destroyed outside the document handle")
        o = vs[0]
        if not (isinstance(o, Ptr) and o.lv is not None and isinstance(ex.val(o.lv, st), Odd) and ex.val(o.lv, st).name == "gumboopts"):
            raise Unsupported("parser options other than the default")
        if name == "gumbo_destroy_output":
            p = atom(vs[1].e)
            return ex.ob("!(%s is Null)" % p, "null", "destroyed parse result is not null", node,
                         ex.ob("%s.contains(%s->Out_0)" % (atom(al.e), p), "free", "parse result is destroyed at most once", node,
                               unit(st.put("ghost:alive", V(T_OUTSET, "%s.remove(%s->Out_0)" % (atom(al.e), p))))))
        ln = ex.num(vs[2])
        ex.n += 1
        nm = "doc%d" % ex.n
        ex.params.append((nm, "int"))
        ex.assumes.add("gumbo_parse_with_options returns a new parse result, not null and distinct from every one that exists; it reads only the bytes it is given, and the document depends on nothing but them")
        src = ex.pack(vs[1])
        return ex.ob("piece_ok(%s, %s)" % (src, ln), "bounds", "bytes handed to the parser lie inside the buffer", node,
                     X.Assume("!%s.contains(%s) && out_source(OutP::Out(%s)) =~= piece(%s, %s) && out_root(OutP::Out(%s)) == doc_of(piece(%s, %s))" % (atom(al.e), nm, nm, src, ln, nm, src, ln),
                              k(st.put("ghost:alive", V(T_OUTSET, "%s.insert(%s)" % (atom(al.e), nm))), V(T_OUTP, "OutP::Out(%s)" % nm))))
    if name == "gumbo_get_attribute":
        g = vs[0].lv if isinstance(vs[0], Ptr) else vs[0]
        g = g.v if isinstance(g, LTmp) else g
        if isinstance(g, G) and g.kind == "gvec" and g.x == "attrs":
            return need_str(ex, vs[1], st, node, lambda s, e: k(s, V(T_ATTRP, "get_attr(%s, %s)" % (g.p, e))))
        raise Unsupported("gumbo_get_attribute")
    if name == "gumbo_normalized_tagname":
        return k(st, ex.unpack(T_CP, "normalized_tagname(%s)" % ex.num(vs[0])))
    if name == "gumbo_tag_from_original_text":
        l = vs[0].lv
        o = l.get(ex, st)
        d, ln = o.f["data"], o.f["length"].e
        c = "piece_ok(%s, %s)" % (ex.pack(d), ln)
        no = Obj(o.ty, {"data": ex.unpack(T_CP, "tag_from_orig_data(%s, %s)" % (ex.pack(d), ln)), "length": V(o.f["length"].ty, "tag_from_orig_len(%s, %s)" % (ex.pack(d), ln))})
        return ex.ob(c, "bounds", "string piece passed to gumbo lies inside its buffer", node, unit(l.set(ex, st, no)))
    if name == "gumbo_string_equals_ignore_case":
        ps = []
        c = "true"
        for p in vs:
            o = p.lv.get(ex, st)
            c = X.AND(c, "piece_ok(%s, %s)" % (ex.pack(o.f["data"]), o.f["length"].e))
            ps.append("piece(%s, %s)" % (ex.pack(o.f["data"]), o.f["length"].e))
        return ex.ob(c, "bounds", "string piece passed to gumbo lies inside its buffer", node, k(st, V(T_BOOL, "eq_ignore_case(%s, %s)" % tuple(ps))))
    if name == "gumbo_tag_enum":
        return need_str(ex, vs[0], st, node, lambda s, e: k(s, V(T_U32, "gumbo_tag_enum(%s)" % e)))
    # ---- boost
    if name == "regex_search":
        if n == 2:
            return need_str(ex, vs[0], st, node, lambda s, e: k(s, V(T_BOOL, "rx_search(%s, %s)" % (vs[1].e, e))))
        if n == 3 and isinstance(vs[0], It):
            return it_range(ex, vs[0], vs[1], st, node, lambda s, e: k(s, V(T_BOOL, "rx_search(%s, %s)" % (vs[2].e, e))))
        if n == 3 and is_cp(vs[0]) and is_cp(vs[1]):
            return it_range(ex, vs[0], vs[1], st, node, lambda s, e: k(s, V(T_BOOL, "rx_search(%s, %s)" % (vs[2].e, e))))
        if n == 3 and isinstance(vs[1], Odd) and vs[1].name == "mr":
            def fin(s, e):
                s2 = raw[1].set(ex, s, Odd("mr", {"rx": vs[2].e, "s": e}, vs[1].ty))
                return k(s2, V(T_BOOL, "rx_search(%s, %s)" % (vs[2].e, e)))
            return need_str(ex, vs[0], st, node, fin)
    if name == "regex_match" and n == 2:
        return need_str(ex, vs[0], st, node, lambda s, e: k(s, V(T_BOOL, "rx_match(%s, %s)" % (vs[1].e, e))))
    if name == "regex_replace" and n >= 3:
        return k(st, V(T_STR, "rx_replace(%s, %s, %s)" % (vs[1].e, as_str(ex, vs[0]), as_str(ex, vs[2]))))
    if name == "is_any_of":
        return need_str(ex, vs[0], st, node, lambda s, e: k(s, Odd("anyof", {"set": e})))
    if name in ("trim_if", "trim_left_if", "trim_right_if") and isinstance(vs[1], Odd):
        return ex.assign(raw[0], V(T_STR, "%s(%s, %s)" % (name.replace("_if", "_set"), vs[0].e, vs[1].d["set"])), st, unit)
    if name in ("trim_copy_if",) and isinstance(vs[1], Odd):
        return k(st, V(T_STR, "trim_set(%s, %s)" % (vs[0].e, vs[1].d["set"])))
    if name == "split" and isinstance(vs[2], Odd):
        comp = "true" if n > 3 and vs[3].e in ("0", "token_compress_on") else "false"
        return ex.assign(raw[0], V(vs[0].ty, "split_set(%s, %s, %s)" % (as_str(ex, vs[1]), vs[2].d["set"], comp)), st, lambda s: k(s, raw[0]))
    if name in ("to_lower", "to_upper"):
        return ex.assign(raw[0], V(T_STR, "%s(%s)" % (name, vs[0].e)), st, unit)
    if name in ("to_lower_copy", "to_upper_copy"):
        return k(st, V(T_STR, "%s(%s)" % (name[:-5], vs[0].e)))
    if name == "setw":
        return k(st, Odd("setw", {"n": ex.num(vs[0])}))
    if name == "quoted":
        e = vs[0]
        return need_str(ex, e, st, node, lambda s, x: k(s, Odd("quoted", {"e": x})))
    if name == "getline":
        raise Unsupported("getline")
    raise Unsupported("library function " + name)


def algo_loop(ex, name, vs, raw, st, node, k):
    """standard algorithm with a predicate: a loop whose body is the predicate"""
    a, b, f = vs
    if is_cp(a):
        a, b = It(a.f["buf"].e, a.f["off"].e, False, None, T_CHAR), It(b.f["buf"].e, b.f["off"].e, False, None, T_CHAR)
    if not isinstance(a, It) or a.rev:
        raise Unsupported("algorithm range")
    idx = "idx:" + node["id"]
    res = "tmp:res" + node["id"]
    start, end = a.pos, b.pos
    st = st.put(idx, V(T_I64, start))
    if name == "count_if":
        st = st.put(res, V(T_I64, "0"))
    def cond_k(s, k2):
        return k2(s, V(T_BOOL, "(%s < %s)" % (s.env[idx].e, end)))
    def inc_k(s, k2):
        return k2(s.put(idx, V(T_I64, X.simp("(%s + 1)" % s.env[idx].e))))
    def body_k(s, KK):
        return it_deref(ex, It(a.seq, s.env[idx].e, False, a.lv, a.elty), s, node, lambda s2, el: ex.call_value(f, [el], s2, node, lambda s3, r: after(s3, r, KK)))
    def fin(s, v):
        env = dict(s.env)
        env.pop(idx, None)
        env.pop(res, None)
        return k(State(env), v)
    def itv(p):
        return It(a.seq, p, False, a.lv, a.elty) if isinstance(vs[0], It) else X.mk_cp("false", a.seq, p)
    def after(s, r, KK):
        if name == "for_each":
            return KK.next(s)
        c = ex.truth(r)
        if name == "any_of":
            return If(c, fin(s, V(T_BOOL, "true")), KK.next(s))
        if name == "none_of":
            return If(c, fin(s, V(T_BOOL, "false")), KK.next(s))
        if name == "all_of":
            return If(c, KK.next(s), fin(s, V(T_BOOL, "false")))
        if name == "find_if":
            return If(c, fin(s, itv(s.env[idx].e)), KK.next(s))
        if name == "find_if_not":
            return If(c, KK.next(s), fin(s, itv(s.env[idx].e)))
        if name == "count_if":
            cur = s.env[res].e
            return KK.next(s.put(res, V(T_I64, "(%s + (if %s { 1int } else { 0int }))" % (cur, c))))
    def end_k(s):
        if name == "for_each":
            return fin(s, f)
        if name in ("any_of",):
            return fin(s, V(T_BOOL, "false"))
        if name in ("none_of", "all_of"):
            return fin(s, V(T_BOOL, "true"))
        if name in ("find_if", "find_if_not"):
            return fin(s, itv(end))
        return fin(s, s.env[res])
    rv = V(Ty("vec", (a.elty,)) if a.elty.k != "char" else T_STR, a.seq)
    return ex.loop(node, None, None, None, None, st, X.K(end_k), fns=(cond_k, inc_k, body_k),
                   auto=[("range index in bounds", lambda s: "(%s <= %s && %s <= %s)" % (start, s.env[idx].e, s.env[idx].e, end))],
                   autodecr=lambda s: "(%s - %s)" % (end, s.env[idx].e), idxkey=idx, rangeval=rv)


# ------------------------------------------------------------------ operators
def operator(ex, op, raw, st, node, k, d):
    vs = [ex.val(r, st) for r in raw]
    a = vs[0]
    if op == "()" and isinstance(a, Odd) and a.name == "poinit":
        return popt.declare(ex, raw, vs, st, node, k)
    if op == "!" and isinstance(a, Odd) and a.name == "ifs":
        return popt.method(ex, "fail", raw[0], [], st, node, k)
    if op == "|" and all(isinstance(v, V) and v.ty.k == "int" and X.is_lit(v.e) for v in vs):
        return k(st, V(T_INT, str(int(vs[0].e) | int(vs[1].e))))
    if op == "[]":
        if isinstance(a, V) and a.ty.k == "vm":
            return popt.index(ex, raw, vs, st, node, k)
        if isinstance(a, V) and a.ty.k == "js":
            return rjson.index(ex, raw, vs, st, node, k)
        if isinstance(a, V) and a.ty.k in ("str", "sv"):
            return str_method(ex, "operator[]", raw[0] if X.is_lv(raw[0]) else LTmp(a), a, vs[1:], raw[1:], st, node, k)
        if isinstance(a, V) and a.ty.k in ("vec",):
            return vec_method(ex, "operator[]", raw[0] if X.is_lv(raw[0]) else LTmp(a), a, vs[1:], raw[1:], st, node, k)
        if isinstance(a, V) and a.ty.k == "rulevec":
            return method_eval(ex, "at", raw[0], raw[1:], st, node, k)
        if isinstance(a, Odd) and a.name == "mr":
            i = ex.num(vs[1])
            return k(st, Odd("submatch", {"e": "rx_group(%s, %s, %s)" % (a.d["rx"], a.d["s"], i)}))
        if isinstance(a, It):
            return it_add(ex, a, ex.num(vs[1]), st, node, lambda s, it: it_deref(ex, it, s, node, k))
    if op in ("*",) and len(vs) == 1:
        if X.is_lv(raw[0]) and not isinstance(raw[0], (G, LRule)):
            return ex.deref_lv(raw[0], st, node, k)
        return ex.deref(a, st, node, k)
    if op == "->":
        # handled by MemberExpr (isArrow): yields the pointer-like value itself
        if isinstance(a, It):
            return it_deref(ex, a, st, node, lambda s, l: k(s, Ptr(l, "true")))
        if isinstance(a, V) and a.ty.k == "ruleuptr":
            return k(st, V(T_RULEP, a.e))
        if isinstance(a, V) and a.ty.k in ("uptr", "opt"):
            l = raw[0]
            if X.is_lv(l) and not isinstance(l, LTmp):
                return k(st, Ptr(LSome(l, a.ty.args[0], a.ty.k == "uptr"), ex.truth(a), Ty("ptr", a.ty.args)))
            return k(st, Ptr(LTmp(ex.unpack(a.ty.args[0], (unbox(some_payload(a.e)) if a.ty.k == "uptr" else some_payload(a.e)))), ex.truth(a), Ty("ptr", a.ty.args)))
        return k(st, a)
    if op in ("++", "--"):
        l = raw[0]
        def fin(s, it):
            return k(l.set(ex, s, it), a if len(raw) > 1 else l)
        return it_add(ex, a, "1" if op == "++" else "-1", st, node, fin)
    if op in ("+=", "-=") and isinstance(a, It):
        n = ex.num(vs[1])
        return it_add(ex, a, n if op == "+=" else "(-%s)" % n, st, node, lambda s, it: k(raw[0].set(ex, s, it), raw[0]))
    if op in ("==", "!=", "<", ">", "<=", ">="):
        b = vs[1]
        if isinstance(a, Odd) and a.name == "tokit" or isinstance(b, Odd):
            return cmp_odd(ex, op, a, b, st, node, k)
        if isinstance(a, It):
            return it_cmp(ex, op, a, b, st, node, k)
        if (is_str(a) or is_cp(a)) and (is_str(b) or is_cp(b)):
            def fin(s, x, y):
                if op in ("==", "!="):
                    r = "(%s =~= %s)" % (x, y)
                    return k(s, V(T_BOOL, r if op == "==" else X.NOT(r)))
                return k(s, V(T_BOOL, "(str_cmp(%s, %s) %s 0)" % (x, y, op)))
            return need_str(ex, a, st, node, lambda s, x: need_str(ex, b, s, node, lambda s2, y: fin(s2, x, y)))
        if isinstance(a, V) and a.ty.k == "opt" and isinstance(b, V) and b.ty.k in ("str", "sv", "strlit"):
            r = "(%s == Some(%s))" % (a.e, b.e)
            return k(st, V(T_BOOL, r if op == "==" else X.NOT(r)))
        if isinstance(b, V) and b.ty.k == "nullptr":
            r = X.NOT(ex.truth(a))
            return k(st, V(T_BOOL, r if op == "==" else X.NOT(r)))
        if isinstance(a, V) and a.ty.k == "nullptr":
            r = X.NOT(ex.truth(b))
            return k(st, V(T_BOOL, r if op == "==" else X.NOT(r)))
        return ex.compare(op, a, b, st, node, k)
    if op == "!" and len(vs) == 1:
        return k(st, V(T_BOOL, X.NOT(ex.truth(a))))
    if op == "+":
        if isinstance(a, It):
            return it_add(ex, a, ex.num(vs[1]), st, node, k)
        def fin(s, x, y):
            ys = "%s.push(%s)" % (atom(x), y[5:-1]) if y.startswith("seq![") and y.count(",") == 0 else "(%s + %s)" % (x, y)
            return k(s, V(T_STR, ys))
        return need_str(ex, a, st, node, lambda s, x: need_str(ex, vs[1], s, node, lambda s2, y: fin(s2, x, y)))
    if op == "-" and isinstance(a, It):
        return ex.binop("-", a, vs[1], T_I64, st, node, k)
    if op == "+=":
        return str_method(ex, "append" if not (isinstance(vs[1], V) and vs[1].ty.k == "char") else "push_back", raw[0], a, vs[1:], raw[1:], st, node, lambda s, v: k(s, raw[0]))
    if op == "<<":
        return stream_out(ex, raw, vs, st, node, k)
    if op == ">>":
        raise Unsupported("stream input")
    raise Unsupported("operator%s on %r" % (op, vs))


def stream_out(ex, raw, vs, st, node, k):
    l = raw[0]
    width = None
    if isinstance(vs[0], Odd) and vs[0].name == "os_w":
        l, width = vs[0].d["lv"], vs[0].d["n"]
    os = l.get(ex, st)
    if not (isinstance(os, V) and os.ty.k == "ostream"):
        raise Unsupported("stream insertion into %r" % (os,))
    b = vs[1]
    if isinstance(b, Odd) and b.name == "setw":
        return k(st, Odd("os_w", {"lv": l, "n": b.d["n"]}))
    if isinstance(b, Odd) and b.name == "quoted":
        return put(ex, l, os, "quoted(%s)" % b.d["e"], width, st, k)
    if isinstance(b, FnRef) and b.decl.get("name") in ("endl",):
        return put(ex, l, os, "seq![10i8]", None, st, k)
    if isinstance(b, FnRef) and b.decl.get("name") in ("flush",):
        return k(st, l)
    if isinstance(b, V) and b.ty.k == "int":
        return put(ex, l, os, "dec(%s)" % b.e, width, st, k)
    if isinstance(b, Odd) and b.name == "filebuf":
        return popt.stream_in(ex, l, os, b, st, k)
    if isinstance(b, V) and b.ty.k == "podesc":
        return put(ex, l, os, "desc_text(%s)" % b.e, None, st, k)
    if isinstance(b, V) and b.ty.k == "ostream":
        raise Unsupported("stream into stream")
    return need_str(ex, b, st, node, lambda s, e: put(ex, l, os, e, width, s, k))


def put(ex, l, os, e, width, st, k):
    if width is not None:
        e = "pad_left(%s, %s)" % (e, width)
    m = re.match(r"^seq!\[([^,\[\]]*)\]$", e)
    if m:
        r = "%s.push(%s)" % (atom(os.e), m.group(1))
    else:
        r = "(%s + %s)" % (os.e, e) if os.e != "Seq::<i8>::empty()" else e
    return ex.assign(l, V(os.ty, r), st, lambda s: k(s, l))


# ------------------------------------------------------------------ odd objects
def truth_odd(ex, v):
    raise Unsupported("truth of %r" % v.name)


def deref_odd(ex, v, st, node, k):
    raise Unsupported("deref of %r" % v.name)


def member_odd(ex, l, o, f, e, st, k):
    if o.name == "itpair":
        return k(st, LTmp(o.d["a" if f == "first" else "b"]))
    raise Unsupported("member %s of %s" % (f, o.name))


def index_odd(ex, a, b, st, node, k):
    raise Unsupported("index of %r" % a.name)


def cmp_odd(ex, op, a, b, st, node, k):
    raise Unsupported("comparison of library objects")


def pack_odd(ex, v):
    if v.name == "submatch":
        return v.d["e"]
    if v.name == "nullopt":
        return "None"
    raise Unsupported("stored library object " + v.name)


def range_of(ex, v, st):
    if v.name == "tokens":
        sep = v.d["sep"]
        keep = "true" if len(sep) > 2 and sep[2] not in ("0",) else "false"
        if len(sep) > 1 and "".join(sep[1].split()) not in ("Seq::<i8>::empty()", "seq![]", "Seq::empty()"):
            raise Unsupported("kept delimiters " + sep[1])
        return V(Ty("vec", (T_STR,)), "split_on(%s, %s, %s)" % (v.d["s"], sep[0], keep))
    raise Unsupported("range over " + v.name)
