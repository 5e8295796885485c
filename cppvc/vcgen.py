"""One Verus proof function per C++ function under contract."""
import os, re, subprocess, json, time, tempfile, shutil, copy
from cast import *
from vals import *
import exec as X
from exec import Exec, Obl, K, Ref, Assert, Stmt, If, Done, lex_less

VERUS = "verus"


class Loop:
    def __init__(self, inv=(), decr=None, roles=(), hints=(), entry_hints=(), head_hints=(), exit_hints=()):
        self.inv, self.decr, self.roles = list(inv), ([decr] if isinstance(decr, str) else decr), list(roles)
        self.hints, self.entry_hints, self.head_hints, self.exit_hints = list(hints), list(entry_hints), list(head_hints), list(exit_hints)

    def text(self):
        return " ".join(self.inv + self.hints + self.entry_hints + self.head_hints + self.exit_hints)


class Contract:
    """Contract of one C++ function.  `ret`, `out`, `throws` are total specifications: the
    function must return / store / throw exactly that."""

    def __init__(self, name, params=(), ret=None, out=None, requires=(), ensures=(), throws=None, thrown=None, scc=None, decr=None,
                 call_hints=(), loops=(), inline=False, sig=None, overrides=None, entry=(), exit=(), props=(), this="value", alias=None,
                 variant=None, may_throw=(), assumed=None, rlimit=60, ptypes=None, sdecr=None, ghost=(), thrown_msg=None, alts=(), streams=(), defaults=None):
        self.name, self.params, self.ret, self.out = name, list(params), ret, dict(out or {})
        self.requires, self.ensures, self.throws, self.thrown = list(requires), list(ensures), throws, thrown
        self.scc, self.decr = scc, ([decr] if isinstance(decr, str) else decr)
        self.call_hints, self.loops, self.inline, self.sig, self.overrides = list(call_hints), loops, inline, sig, overrides
        self.entry, self.exit, self.props, self.this, self.alias = list(entry), list(exit), set(props), this, alias
        self.variant, self.may_throw, self.assumed, self.rlimit = variant, set(may_throw), assumed, rlimit
        self.ptypes = ptypes or {}
        self.sdecr, self.ghost, self.thrown_msg = sdecr, list(ghost), thrown_msg
        self.defaults = dict(defaults or {})    # what a caller who leaves the argument out passes
        self.streams = list(streams)    # standard streams the function may write to
        self.alts = list(alts)      # other loop annotations, for other shapes of the same loops

    def shapes(self):
        """this contract with its other loop annotations (the annotations only help the proof: what is proved is the same)"""
        for ls in self.alts:
            c = copy.copy(self)
            c.loops, c.alts = ls, []
            yield c

    def loop(self, no, node):
        if isinstance(self.loops, dict):
            return self.loops.get(no)
        return self.loops[no - 1] if 0 < no <= len(self.loops) else None

    @property
    def id(self):
        return self.name + (("#" + self.variant) if self.variant else "")


class Job:
    """The obligations of one function, ready for the prover."""

    def __init__(self, c):
        self.c = c
        self.lines, self.map, self.obls = [], {}, []
        self.called, self.inlined, self.assumes = set(), set(), set()
        self.text, self.src_line, self.nexits = "", 0, 0
        self.ambiguous = {}
        self.bare_loops, self.role_cands = set(), {}


def tname(c):
    return re.sub(r"\W+", "_", c.id)


def same_term(a, b):
    return a.replace(" ", "") == b.replace(" ", "")


def vc_function(tu, schema, contracts, c, d, choice=None):
    if d.get("kind") == "Fragment":
        import parsevc
        return parsevc.vc_fragment(tu, schema, contracts, c, d, choice)
    ex = Exec(tu, schema, contracts, c.id)
    ex.cur = c
    if choice:
        ex.rolechoice = choice
    isctor = d.get("kind") == "CXXConstructorDecl"
    env, pre, m = {}, [], {}
    ps = ex.parms(d)
    if len(ps) != len(c.params):
        raise Unsupported("%s has %d parameters, its contract has %d" % (c.name, len(ps), len(c.params)))
    plv = {}
    for p, n in zip(ps, c.params):
        t = tu.ty(p)
        pn = "p_" + n
        if t.k == "ptr" and t.args[0].k == "ptr" and t.args[0].args[0].k == "char":
            # the arguments of the program
            ex.params.append((pn, "Seq<CP>"))
            env[p["id"]] = It(pn, "0", False, None, T_CP)
            m[n] = pn
            continue
        if t.k == "other" and n in c.ptypes:
            t = c.ptypes[n]
        if t.k == "g":
            kind = {"GumboNode": "node", "GumboElement": "elem", "GumboText": "text", "GumboDocument": "doc", "GumboAttribute": "attr"}.get(t.name)
            if kind is None:
                raise Unsupported("parameter type %r" % t)
            ex.params.append((pn, "AttrP" if kind == "attr" else "NodeP"))
            v = G(kind, pn)
            env[p["id"]] = Ref(v)
            pre.append("!(%s is Null)" % pn)
            if kind != "attr":
                pre.append("n_ok(%s)" % pn)
            if kind in ("elem", "doc", "text"):
                pre.append("is_%s(%s)" % (kind, pn))
            m[n] = pn
            continue
        if t.k == "cls" and t.name == "Rule" and t.const and t.ref and c.this == "ptr":
            ex.params.append((pn, "RuleP"))
            env[p["id"]] = Ref(LRule(pn))
            m[n] = pn
            continue
        if t.k == "ptr" and t.args[0].k == "cls" and t.args[0].name == "Rule":
            ex.params.append((pn, "RuleP"))
            env[p["id"]] = V(T_RULEP, pn)
            m[n] = pn
            continue
        if t.k == "ptr" and t.args[0].k == "char":
            ex.params.append((pn, "CP"))
            v = ex.unpack(t, pn)
            pre.append("(%s.null || 0 <= %s.off <= %s.buf.len())" % (pn, pn, pn))
        elif t.k == "ptr" and t.args[0].k in ("vec", "cls", "mmap", "str", "int"):
            # pointer to an object owned by the caller
            key = "ptgt:" + pn
            ex.params.append((pn, ex.vt(t.args[0])))
            env[key] = ex.unpack(t.args[0], pn)
            env[p["id"]] = Ptr(LKey(key, t.args[0]), "true", t)
            plv[n] = LKey(key, t.args[0])
            m[n] = (lambda v=env[key]: ex.term(v, None))
            continue
        elif t.k == "cls" and t.name != "Rule" and schema.classes.get(t.name, {}).get("fields") is not None and (schema.classes[t.name].get("base") or schema.classes[t.name].get("statefields")):
            f = {}
            for n2, t2 in ex.all_fields(t.name):
                ex.params.append((pn + "_" + n2, ex.vt(t2)))
                f[n2] = ex.unpack(t2, pn + "_" + n2)
                m[n + "." + n2] = (lambda v=f[n2]: ex.term(v, None))
            v = Obj(t.noref(), f)
        else:
            ex.params.append((pn, ex.vt(t)))
            v = ex.unpack(t, pn)
        if t.k == "ptr" and t.args[0].k == "g" and t.args[0].name == "GumboNode":
            pre.append("n_ok(%s)" % pn)
        env[p["id"]] = v
        plv[n] = LKey(p["id"], t)
        m[n] = (lambda v=v: ex.term(v, None))
    this_t, this_lv, init_this = None, None, None
    cls = c.name.split("::")[-2] if d.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") else None
    rec = tu.cls_of.get(d["id"]) or {}
    if cls == "Cloneable":
        targs = [a for a in rec.get("inner", []) if a.get("kind") == "TemplateArgument"]
        if not targs:
            raise Unsupported("template pattern")
        cls = targs[0]["type"]["qualType"].split("::")[-1]
    if cls and not isctor and not d.get("storageClass") == "static":
        if c.this == "ptr":
            ex.params.append(("self_", "RuleP"))
            env["this"] = V(T_RULEP, "self_")
            pre.append("!(self_ is Null)")
            m["this"] = "self_"
        else:
            this_t = Ty("cls", name=cls)
            s = schema.classes.get(cls)
            if s is None:
                raise Unsupported("class " + cls)
            f = {}
            for n, t in ex.all_fields(cls):
                ex.params.append(("t_" + n, ex.vt(t)))
                f[n] = ex.unpack(t, "t_" + n)
            init_this = Obj(this_t, f)
            env["obj:this"] = init_this
            this_lv = LKey("obj:this", this_t)
            env["this"] = Ptr(this_lv, "true", Ty("ptr", (this_t,)))
            m["this"] = (lambda: atom(ex.pack(init_this)))
            for n, v in f.items():
                m["this." + n] = (lambda v=v: ex.term(v, None))
            ex.fieldmaps.setdefault(cls, schema.fieldmap(tu, cls))
    for g in c.ghost:
        ex.params.append(("g_" + g, "Set<int>"))
        env["ghost:" + g] = V(T_OUTSET, "g_" + g)
        m[g] = "g_" + g
    for g in c.streams:
        ex.params.append(("g_" + g, "Seq<i8>"))
        env["glob:" + g] = V(T_OS, "g_" + g)
        m[g] = "g_" + g
    ex.curargs = m
    ex.curcls = cls
    if c.alias:
        # parameter refers to the object itself
        p = ps[c.params.index(c.alias)]
        env[p["id"]] = Ref(this_lv)
        ex.params = [x for x in ex.params if x[0] != "p_" + c.alias and not x[0].startswith("p_" + c.alias + "_")]
        m[c.alias] = m["this"]
        plv.pop(c.alias, None)
    st = State(env)
    exits = [0]

    def O(cls_, label):
        return Obl(cls_, label, line_of(d), c.id)

    def throw_k(s, kind, vs):
        if any(s.env["ghost:" + g].e != "g_" + g for g in c.ghost):
            raise Unsupported("exception in a function that parses or destroys documents")
        exits[0] += 1
        if kind in c.may_throw:
            return Done()
        kinds = [c.thrown] if isinstance(c.thrown, str) else (c.thrown or [])
        if c.throws is None or kind not in kinds:
            return Assert("false", O("throws", "no %s is thrown" % kind), Done())
        code = Done()
        if c.thrown_msg is not None:
            msg = "false" if not vs else eq(ex.term(ex.coerce(ex.val(vs[0], s), T_STR), s), ex.subst(c.thrown_msg, m), None)
            if msg != "true":
                code = Assert(msg, O("message", "message of the %s is %s" % (kind, c.thrown_msg)), code)
            for h in reversed(c.exit):
                code = Stmt(ex.subst(h, m), code)
        return Assert(ex.subst(c.throws, m), O("throws", "%s is thrown only when: %s" % (kind, c.throws)), Stmt("// exit", code))

    ex.throw_k = throw_k

    def eq(a, b, ty):
        if same_term(a, b):
            return "true"
        if ty is not None and ty.k in ("int", "bool", "char"):
            return "%s == %s" % (a, b) if ty.k != "bool" else "(%s) == (%s)" % (a, b)
        return "(%s) =~~= (%s)" % (a, b)

    rty = ex.ret_type(d)

    def finish(s, v):
        exits[0] += 1
        checks = []
        mm = dict(m)
        if c.throws is not None:
            checks.append((X.NOT(ex.subst(c.throws, m)), O("throws", "throws whenever: %s" % c.throws)))
        if isctor:
            t = ex.pack(v)
            mm["ret"] = lambda: atom(t)
            if c.ret is not None:
                checks.append((eq(t, ex.subst(c.ret, m), None), O("ensures", "constructed object is %s" % c.ret)))
        elif c.ret == "*this":
            ok = X.is_lv(v) and this_lv is not None and v.key() == this_lv.key()
            checks.append(("true" if ok else "false", O("ensures", "returns *this")))
        elif isinstance(c.ret, str) and c.ret.startswith("&this."):
            fl = LFld(this_lv, c.ret[6:], None)
            want = LSome(fl, None, True).key() if isinstance(v, Ptr) else fl.key()
            ok = "false"
            if isinstance(v, Ptr) and v.lv is not None and v.lv.key() == want:
                a_ = ex.truth(fl.get(ex, s))
                ok = "true" if v.cond == a_ else "(%s) == (%s)" % (v.cond, a_)
            elif X.is_lv(v) and not isinstance(v, Ptr) and v.key() == want:
                ok = "true"
            checks.append((ok, O("ensures", "returns a reference to the object's own " + c.ret[6:])))
        elif rty.k != "void":
            if isinstance(v, (LKey, LFld, LHops)):
                v = v.get(ex, s)
            t = ex.term(v, s)
            mm["ret"] = lambda: t
            if c.ret is not None:
                checks.append((eq(t, ex.subst(c.ret, m), rty), O("ensures", "result is %s" % c.ret)))
        # effects
        for n, lv in plv.items():
            i = c.params.index(n)
            pt = tu.ty(ps[i])
            if not (pt.ref == "&" and not pt.const or pt.k == "ptr" and n in plv and lv.k != ps[i]["id"]):
                if not (pt.ref == "&&"):
                    continue
                if n not in c.out:
                    continue
            now = ex.term(lv.get(ex, s), s)
            mm["out." + n] = lambda now=now: now
            if c.out.get(n, "") is None:
                continue
            want = ex.subst(c.out[n], m) if n in c.out else (m[n]() if callable(m[n]) else m[n])
            checks.append((eq(now, want, pt.noref() if pt.k != "ptr" else pt.args[0]), O("ensures", "%s %s" % (n, "becomes " + c.out[n] if n in c.out else "is unchanged"))))
        if this_lv is not None:
            o = s.env["obj:this"]
            if "this" in c.out:
                if c.out["this"] is not None:
                    checks.append((eq(ex.pack(o), ex.subst(c.out["this"], m), None), O("ensures", "*this becomes %s" % c.out["this"])))
                mm["out.this"] = lambda: atom(ex.pack(o))
            else:
                oo = ex.unpack_obj(o) if isinstance(o, V) else o
                for n, v0 in init_this.f.items():
                    a = ex.term(oo.f[n], s)
                    mm["out.this." + n] = lambda a=a: a
                    k2 = "this." + n
                    if k2 in c.out:
                        if c.out[k2] is not None:
                            checks.append((eq(a, ex.subst(c.out[k2], m), oo.f[n].ty), O("ensures", "%s becomes %s" % (n, c.out[k2]))))
                    else:
                        checks.append((eq(a, ex.term(v0, s), oo.f[n].ty), O("frame", "%s is unchanged" % n)))
        for g in c.ghost:
            now = s.env["ghost:" + g].e
            mm["out." + g] = now
            if g not in c.out:
                checks.append((eq(now, "g_" + g, None), O("frame", "the set of documents that exist is unchanged")))
            elif c.out[g] is not None:
                checks.append((eq(now, ex.subst(c.out[g], m), None), O("ensures", "the documents that exist become " + c.out[g])))
        for g in c.streams:
            now = s.env["glob:" + g].e
            mm["out." + g] = now
            if g not in c.out:
                checks.append((eq(now, "g_" + g, None), O("frame", "nothing is written to std::" + g)))
            elif c.out[g] is not None:
                checks.append((eq(now, ex.subst(c.out[g], m), None), O("ensures", "std::%s becomes %s" % (g, c.out[g]))))
        for e in c.ensures:
            checks.append((ex.subst(e, mm), O("ensures", e)))
        code = Done()
        for e, o in reversed(checks):
            if e != "true":
                code = Assert(e, o, code)
            else:
                trivial.append(o)
        for h in reversed(c.exit):
            code = Stmt(ex.subst(h, mm), code)
        return Stmt("// exit", code)

    trivial = []
    if isctor:
        t = Ty("cls", name=cls)
        code = ex.exec_ctor(t, ex.record(cls), d, [], st, d, finish) if not ps else _ctor(ex, t, cls, d, ps, env, st, finish)
    else:
        code = ex.exec_body(body_of(d), st, finish, d)
    for h in reversed(c.entry):
        code = Stmt(ex.subst(h, m), code)
    for n, want in c.defaults.items():
        code = default_argument(ex, d, c.params.index(n), n, want, st, eq, O, trivial, code)
    if c.sdecr:
        code = Stmt(measure_facts(ex, schema, m, c.sdecr[1:], cls, isctor), code)
    pre += [ex.subst(r, m) for r in c.requires]
    return make_job(ex, c, code, pre, trivial, exits[0], line_of(d))


def default_argument(ex, d, i, n, want, st, eq, O, trivial, code):
    """the value an omitted argument has is the documented one"""
    a = ex.default_parm(d, i)
    if a is None:
        return code         # the argument cannot be left out
    t = ex.tu.ty(ex.parms(d)[i])
    o = O("ensures", "%s is %s when it is left out" % (n, want))

    def got(s, v):
        w = ex.coerce(ex.val(v, s), t.noref())
        g = eq(ex.term(w, s), want, t.noref())
        if g == "true":
            trivial.append(o)
            return code
        return Assert(g, o, code)
    return ex.x(a, st, got)


def make_job(ex, c, code, pre, trivial, nexits, src_line):
    job = Job(c)
    out = []
    code.render(out, 1)
    L = ["proof fn vc_%s(" % tname(c) + ", ".join("%s: %s" % p for p in ex.params) + ")"]
    if pre:
        L.append("    requires " + ", ".join(pre) + ",")
    L.append("{")
    L.append("    broadcast use crate::spec::string_facts;")
    for kind, ind, txt, obl in out:
        if kind == "assert":
            L.append("    " * ind + "assert(%s);" % txt)
            job.obls.append((len(L), obl))
        else:
            L.append("    " * ind + txt)
    L.append("}")
    job.lines = L
    job.trivial = trivial
    job.nexits = nexits
    job.called, job.inlined, job.assumes = ex.called, ex.inlined, ex.assumes
    job.ambiguous = dict(ex.ambiguous)
    job.bare_loops = set(ex.bare_loops)
    job.role_cands = dict(ex.role_cands)
    job.src_line = src_line
    return job


def measure_facts(ex, schema, m, name, cls, isctor):
    """Names the members of the object that serves as the measure, so that the prover sees them as parts of it."""
    call = lambda x: x() if callable(x) else x
    L = ["let m_ = %s;" % call(m[name])]
    o = schema.classes[cls]["unpack"](ex, V(Ty("cls", name=cls), "m_")) if schema.classes[cls].get("unpack") else None
    for n, v in (o.f.items() if o else ()):
        if v.ty is None or v.ty.k not in ("uptr", "vec"):
            continue
        t = ex.term(v, None)
        have = m.get(name + "." + n)
        if have is not None:
            L.append("assert(%s =~~= %s);" % (t, call(have)))
        r = schema.root((v.ty.args[0] if v.ty.k == "uptr" else v.ty.args[0].args[0] if v.ty.args[0].k == "uptr" else v.ty.args[0]).name or "")
        if r == schema.root(cls):
            L.append("assert(decreases_to!(m_ => %s));" % t)
    return " ".join(L)


def _ctor(ex, t, cls, d, ps, env, st, finish):
    # parameters are already bound in the environment: run the initialisers with bind_params skipped
    saved = ex.bind_params
    first = [True]

    def bind(dd, vs, s, node, k):
        if dd is d and first[0]:
            first[0] = False
            return k(s)
        return saved(dd, vs, s, node, k)
    ex.bind_params = bind
    try:
        return ex.exec_ctor(t, ex.record(cls), d, [], st, d, finish)
    finally:
        ex.bind_params = saved


# ------------------------------------------------------------------ the prover
HEAD = """#![allow(unused_imports, unused_variables, dead_code, unused_parens, unused_braces, non_snake_case, unused_mut)]
use vstd::prelude::*;
#[path = "spec.rs"]
pub mod spec;
use crate::spec::*;
verus! {
fn main() {}
"""


def job_text(job, vacuity=False):
    pre = HEAD.split("\n")[:-1]
    L = list(job.lines)
    if vacuity:
        L = [re.sub(r"^(\s*)assert\((.*)\);$", r"\1assume(\2);", l) if (i + 1) in {n for n, _ in job.obls} else l for i, l in enumerate(L)]
        L = [re.sub(r"^(\s*)// exit$", r"\1assert(false); // exit", l) for l in L]
    off = len(pre)
    return "\n".join(pre + L + ["} // verus!"]) + "\n", off


def run_verus(dirname, fname, rlimit, extra=(), timeout=600):
    cmd = [VERUS, fname, "--verify-root", "--multiple-errors", "40", "--rlimit", str(rlimit), "--num-threads", "1", "--output-json", "--time"] + list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=dirname, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"rc": 124, "err": "timeout", "out": {}, "t": time.time() - t0, "cmd": " ".join(cmd)}
    try:
        o = json.loads(p.stdout[p.stdout.index("{"):])
    except Exception:
        o = {}
    return {"rc": p.returncode, "err": p.stderr, "out": o, "t": time.time() - t0, "cmd": " ".join(cmd)}
