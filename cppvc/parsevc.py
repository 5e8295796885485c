"""Proof obligations of the pieces of Parser::parse: the action bodies of the generated machine, the driver that
performs them, and the end of the parse.  The pieces are cut out of the syntax tree on every run; nothing is dropped."""
from cast import *
from vals import *
import exec as X
from exec import Exec, Obl, K, Ref, Assert, Stmt, Done
import vcgen

PARSE = "hext::Parser::parse"


def walk(n):
    if isinstance(n, dict):
        yield n
        for c in n.get("inner", []):
            yield from walk(c)


def cases(sw):
    """(items, [(label expression or None, position)]) of a switch"""
    items, labels = [], []
    body = sw["inner"][1]

    def flat(c):
        while c.get("kind") in ("CaseStmt", "DefaultStmt"):
            if c["kind"] == "CaseStmt":
                if len(c["inner"]) == 3:
                    raise Unsupported("case range")
                labels.append((c["inner"][0], len(items)))
                c = c["inner"][1]
            else:
                labels.append((None, len(items)))
                c = c["inner"][0]
        items.append(c)
    for c in (body.get("inner", []) if body.get("kind") == "CompoundStmt" else [body]):
        flat(c)
    return items, labels


class Pieces:
    """the parts of parse(): `switches`: for transitions ("t") and for the end of the text ("e")"""

    def __init__(self, tu, d):
        self.tu, self.d = tu, d
        self.locals = []

        def number(n, inlam, seq=[0]):
            if not isinstance(n, dict):
                return
            seq[0] += 1
            n["_seq"] = seq[0]
            if n.get("kind") == "VarDecl" and not inlam:
                self.locals.append(n)
            for c in n.get("inner", []):
                number(c, inlam or n.get("kind") == "LambdaExpr")
        number(body_of(d), False)
        self.outer = {v["id"] for c in body_of(d).get("inner", []) if c.get("kind") == "DeclStmt" for v in c.get("inner", []) if v.get("kind") == "VarDecl"}
        self.find_labels()
        sw = [n for n in walk(body_of(d)) if n.get("kind") == "SwitchStmt"]
        if len(sw) != 2:
            raise Unsupported("parse() has %d switch statements; the generated machine has one for transitions and one for the end" % len(sw))
        self.switch = dict(zip("te", sw))
        self.case = {}
        ex = Exec(tu, None, {}, PARSE)
        for w in "te":
            items, labels = cases(self.switch[w])
            for v, p in labels:
                if v is None:
                    raise Unsupported("default case among the actions")
                self.case[(w, ex.const_of(v))] = (items, p)


    def path(self, node):
        """[(statements of an enclosing block, index)] from the function body down to the node"""
        def go(n, acc):
            if n is node:
                return acc
            for i, c in enumerate(n.get("inner", [])):
                if isinstance(c, dict):
                    r = go(c, acc + [(n, i)])
                    if r is not None:
                        return r
            return None
        r = go(body_of(self.d), [])
        if r is None:
            raise Unsupported("a piece of parse() is not found")
        return r

    def in_scope(self, node):
        out = []
        for n, i in self.path(node):
            if n.get("kind") == "CompoundStmt":
                for c in n["inner"][:i]:
                    if c.get("kind") == "DeclStmt":
                        out += [v for v in c["inner"] if v.get("kind") == "VarDecl"]
        return out

    def find_labels(self):
        """label -> (its declaration id, node); every label stands in a block of the function's straight nesting"""
        self.labels, self.byid = {}, {}
        for n in walk(body_of(self.d)):
            if n.get("kind") == "LabelStmt":
                self.labels[n["name"]] = n
                self.byid[n["declId"]] = n["name"]


def fragment(pieces, w, k):
    items, p = pieces.case[(w, k)]
    return {"kind": "Fragment", "pieces": pieces, "items": items, "pos": p, "id": "frag:%s:%d" % (w, k), "type": {"qualType": "%s%d" % (w, k)}, "node": items[p]}


ROLES = ("tok_begin", "tok_end", "tok")


def local_env(ex, tu, schema, pieces, upto, params, m, need=True):
    """environment at a point of parse(): the object, the named pending state, everything else unknown"""
    env = {}
    this_t = Ty("cls", name="Parser")
    f = {}
    for n, t in ex.all_fields("Parser"):
        params.append(("t_" + n, ex.vt(t)))
        f[n] = ex.unpack(t, "t_" + n)
    init = Obj(this_t, f)
    env["obj:this"] = init
    lv = LKey("obj:this", this_t)
    env["this"] = Ptr(lv, "true", Ty("ptr", (this_t,)))
    m["this"] = lambda: atom(ex.pack(init))
    for n, v in f.items():
        m["this." + n] = (lambda v=v: ex.term(v, None))
    ex.fieldmaps.setdefault("Parser", schema.fieldmap(tu, "Parser"))
    roles = {}
    lams = []
    cps = [d for d in pieces.locals if not lambda_init(d) and tu.ty(d).k == "ptr" and tu.ty(d).args[0].k == "char" and d in upto]
    strs = [d for d in pieces.locals if tu.ty(d).k == "str" and d in upto]
    byname = {d["name"]: d for d in upto}
    tb = byname.get("tok_begin") or (cps[0] if cps else None)
    tok = byname.get("tok") or (strs[0] if strs else None)
    for d in upto:
        if lambda_init(d):
            lams.append(d)
            continue
        t = tu.ty(d)
        if t.k == "cls" and t.name == "PatternValues":
            params.append(("p_pv", "PvV"))
            pf = {}
            for n, ft in ex.all_fields("PatternValues"):
                pf[n] = ex.unpack(ft, "p_pv.%s" % schema_name(n))
                m["pv." + n] = (lambda v=pf[n]: ex.term(v, None))
            o = Obj(t.noref(), pf)
            ex.fieldmaps.setdefault("PatternValues", schema.fieldmap(tu, "PatternValues"))
            env[d["id"]] = o
            m["pv"] = "p_pv"
            roles["pv"] = LKey(d["id"], t)
            continue
        nm = None
        if d is tb:
            nm, role = "p_tb", "tb"
        elif d is tok:
            nm, role = "p_tok", "tok"
        if nm:
            params.append((nm, ex.vt(t)))
            env[d["id"]] = ex.unpack(t, nm)
            m[role] = nm
            roles[role] = LKey(d["id"], t)
            continue
        try:
            nm = "l%d_%s" % (d["_seq"], re.sub(r"\W", "_", d["name"]))
            ty = ex.vt(t)
            params.append((nm, ty))
            env[d["id"]] = ex.unpack(t, nm)
        except Unsupported:
            params[:] = [p for p in params if p[0] != nm]
    for r in ("pv", "tb", "tok"):
        if need and r not in roles:
            raise Unsupported("parse() has no local variable in the role of '%s'" % r)
    st = [X.State(env)]
    for d in lams:
        box = []
        lam = [c for c in walk(d) if c.get("kind") == "LambdaExpr"][0]
        ex.ev(lam, st[0], lambda s, v: (box.append(v), Done())[1])
        st[0] = st[0].put(d["id"], box[0])
    return st[0], lv, init, roles


def schema_name(n):
    import schema
    return schema.rust_name(n)


def lambda_init(d):
    return any(c.get("kind") == "LambdaExpr" for c in walk(d))


def vc_fragment(tu, schema, contracts, c, frag, choice=None):
    if frag.get("segment"):
        return vc_segment(tu, schema, contracts, c, frag, choice)
    pieces = frag["pieces"]
    ex = Exec(tu, schema, contracts, c.id)
    ex.cur = c
    m = {}
    node = frag["node"]
    upto = pieces.in_scope(node)
    st, this_lv, init, roles = local_env(ex, tu, schema, pieces, upto, ex.params, m)
    env0 = st.env
    driver = [d for d in upto if d["id"] not in pieces.outer and d["id"] in env0]
    ex.curargs = m
    ex.curcls = "Parser"
    pre = []
    exits = [0]
    trivial = []

    def O(cls_, label):
        return Obl(cls_, label, line_of(node), c.id)

    def eq(a, b, ty=None):
        if vcgen.same_term(a, b):
            return "true"
        if ty is not None and ty.k in ("int", "char", "bool"):
            return "(%s) == (%s)" % (a, b)
        return "(%s) =~~= (%s)" % (a, b)

    def throw_k(s, kind, vs):
        exits[0] += 1
        if c.throws is None or kind != c.thrown:
            return Assert("false", O("throws", "no %s is thrown" % kind), Done())
        code = Done()
        if c.thrown_msg is not None:
            msg = "false" if not vs else eq(ex.term(ex.coerce(ex.val(vs[0], s), T_STR), s), ex.subst(c.thrown_msg, m))
            if msg != "true":
                code = Assert(msg, O("message", "message of the %s is %s" % (kind, c.thrown_msg)), code)
        return Assert(ex.subst(c.throws, m), O("throws", "%s is thrown only when: %s" % (kind, c.throws)), Stmt("// exit", code))
    ex.throw_k = throw_k

    def finish(s, v=None):
        exits[0] += 1
        checks = []
        mm = dict(m)
        if c.throws is not None:
            checks.append((X.NOT(ex.subst(c.throws, m)), O("throws", "throws whenever: %s" % c.throws)))
        o = s.env["obj:this"]
        oo = ex.unpack_obj(o) if isinstance(o, V) else o
        mm["out.this"] = lambda: atom(ex.pack(oo))
        for n, v0 in init.f.items():
            a = ex.term(oo.f[n], s)
            mm["out.this." + n] = lambda a=a: a
            want = ex.subst(c.out[n], m) if n in c.out else ex.term(v0, s)
            checks.append((eq(a, want, oo.f[n].ty), O("ensures" if n in c.out else "frame", "%s %s" % (n, "becomes " + c.out[n] if n in c.out else "is unchanged"))))
        for r in ("pv", "tb", "tok"):
            w = roles[r].get(ex, s)
            if r == "pv":
                wo = ex.unpack_obj(w) if isinstance(w, V) else w
                whole = atom(ex.pack(w))
                mm["out.pv"] = whole
                for n, fv in wo.f.items():
                    a = ex.term(fv, s)
                    mm["out.pv." + n] = lambda a=a: a
                    if "pv" in c.out:
                        continue
                    k = "pv." + n
                    want = ex.subst(c.out[k], m) if k in c.out else m["pv." + n]()
                    checks.append((eq(a, want, fv.ty), O("ensures" if k in c.out else "frame", "pending %s %s" % (n, "becomes " + c.out[k] if k in c.out else "is unchanged"))))
                if "pv" in c.out:
                    checks.append((eq(whole, ex.subst(c.out["pv"], m)), O("ensures", "the pending values become " + c.out["pv"])))
                continue
            a = ex.term(w, s)
            mm["out." + r] = a
            want = ex.subst(c.out[r], m) if r in c.out else m[r]
            checks.append((eq(a, want), O("ensures" if r in c.out else "frame", "%s %s" % ({"tb": "the beginning of the token", "tok": "the token"}[r], "becomes " + c.out[r] if r in c.out else "is unchanged"))))
        for d in driver:
            if s.env[d["id"]].key() != env0[d["id"]].key():
                checks.append((eq(ex.term(ex.val(LKey(d["id"], tu.ty(d)), s), s), ex.term(env0[d["id"]], s)), O("frame", "the driver's variable %s is unchanged" % d["name"])))
        for e in c.ensures:
            x = ex.subst(e, mm)
            i = e.find(") ==> (")
            if i > 0 and vcgen.same_term(ex.subst(e[1:i], mm), ex.subst(e[i + 7:-1], mm)):
                x = "true"
            checks.append((x, O("ensures", e)))
        code = Done()
        for e, o_ in reversed(checks):
            if e != "true":
                code = Assert(e, o_, code)
            else:
                trivial.append(o_)
        return Stmt("// exit", code)

    def bad(what):
        def f(*a):
            raise Unsupported("%s in an action" % what)
        return f
    code = ex.seq(frag["items"], frag["pos"], st, K(finish, ret=bad("return"), brk=finish, cont=bad("continue"), thr=None))
    for h in reversed(c.entry):
        code = Stmt(ex.subst(h, m), code)
    pre += [ex.subst(r, m) for r in c.requires]
    return vcgen.make_job(ex, c, code, pre, trivial, exits[0], line_of(node))


def line_key(n):
    return n.get("_seq", 0)


# ---------------------------------------------------------------- the driver
class DriverExec(Exec):
    """pieces of the driver: a label ends the piece, the switch over actions performs the next action of the list"""

    def s_LabelStmt(self, n, st, K_):
        return self.end(n["name"], st)

    def s_GotoStmt(self, n, st, K_):
        l = self.pieces.byid.get(n.get("targetLabelDeclId"))
        if l is None:
            raise Unsupported("goto without a label")
        return self.end(l, st)

    def s_SwitchStmt(self, n, st, K_):
        w = [x for x in "te" if self.pieces.switch[x] is n]
        if not w:
            raise Unsupported("a switch in the driver")
        def go(s, v):
            x = self.num(v)
            o = s.env["obj:this"]
            oo = self.unpack_obj(o) if isinstance(o, V) else o
            before = atom(self.pack(oo))
            f = dict(oo.f)
            f["stacks"] = self.havoc(f["stacks"] if not isinstance(f["stacks"], Obj) else f["stacks"], "stacks")
            o2 = Obj(oo.ty, f)
            s2 = s.put("obj:this", o2)
            for d in self.auxiliary:
                if d["id"] in s2.env and not isinstance(s2.env[d["id"]], Lam):
                    s2 = s2.put(d["id"], self.havoc(s2.env[d["id"]], d["name"]))
            tr = s2.env["ghost:trace"]
            s2 = s2.put("ghost:trace", V(tr.ty, "%s.push(%s)" % (tr.e, x)))
            code = If("stacks_ok(%s) && !act_error(%s)" % (self.term(f["stacks"], s2), x), K_.but(brk=None).next(s2), Done())
            code = self.ob("parser_at(%s)" % before, "requires", "an action is performed in a consistent state of the parser", n, code)
            return self.ob("stacks_ok(%s)" % self.term(oo.f["stacks"], s), "requires", "an action is performed with well-formed stacks", n, code)
        return self.ev(n["inner"][0], st, go)

    def cp_ok(self, o):
        # forming a pointer just before a table is not an obligation (reading through it is)
        if re.match(r"^\(?tab_\w+\(\)\)?$", o.f["buf"].e):
            return "true"
        return Exec.cp_ok(self, o)


class _Any:
    pass


def segment(pieces, name):
    b = body_of(pieces.d)
    node = b["inner"][0] if name == "start" else pieces.labels.get(name)
    return {"kind": "Fragment", "pieces": pieces, "segment": name, "id": "seg:" + name, "type": {"qualType": "driver " + name}, "node": node}


def vc_segment(tu, schema, contracts, c, frag, choice=None):
    pieces, name, node = frag["pieces"], frag["segment"], frag["node"]
    import contracts.machine as MC
    if node is None:
        raise Unsupported("parse() has no label %s" % name)
    ex = DriverExec(tu, schema, contracts, c.id)
    ex.cur = c
    ex.pieces = pieces
    ex.rolechoice = choice or {}
    m = {}
    path = pieces.path(node)
    upto = pieces.in_scope(node)
    ex.auxiliary = [d for d in pieces.locals if d["id"] in pieces.outer]
    st, this_lv, init, roles = local_env(ex, tu, schema, pieces, upto, ex.params, m, need=bool(upto))
    for d in upto:
        if d["name"] == "_trans" and d["id"] in st.env and not isinstance(st.env[d["id"]], Lam):
            v = st.env[d["id"]]
            if isinstance(v, (V, Obj)):
                m[d["name"]] = (lambda v=v: ex.term(v, None))
    st = st.put("ghost:trace", V(Ty("vec", (Ty("int", name="int"),)), "Seq::<int>::empty()"))
    ex.curargs = m
    ex.curcls = "Parser"
    exits = [0]
    trivial = []
    tables = {}

    def O(cls_, label):
        return Obl(cls_, label, line_of(node), c.id)

    def eq(a, b):
        return "true" if vcgen.same_term(a, b) else "(%s) =~~= (%s)" % (a, b)

    def outmap(s):
        mm = dict(m)
        o = s.env["obj:this"]
        oo = ex.unpack_obj(o) if isinstance(o, V) else o
        mm["out.this"] = lambda: atom(ex.pack(oo))
        for n, v in oo.f.items():
            mm["out.this." + n] = (lambda v=v: ex.term(v, s))
        for d in pieces.locals:
            v = s.env.get(d["id"])
            if isinstance(v, (V, Obj)):
                mm["out." + d["name"]] = (lambda v=v: ex.term(v, s))
                if tu.ty(d).k == "cls" and tu.ty(d).name == "PatternValues":
                    mm["out.pv"] = (lambda v=v: ex.term(v, s))
        mm["out.ghost_trace"] = (lambda: s.env["ghost:trace"].e)
        return mm, oo

    def frame(s, oo, free=()):
        return [(eq(ex.term(oo.f[n], s), ex.term(v0, s)), O("frame", "%s is unchanged" % n)) for n, v0 in init.f.items() if n not in c.out and n not in free]

    def chain(checks):
        code = Done()
        for e, o_ in reversed(checks):
            if e == "true":
                trivial.append(o_)
            else:
                code = Assert(e, o_, code)
        exits[0] += 1
        return Stmt("// exit", code)

    def end(l, s):
        if l not in MC.LABELS:
            raise Unsupported("label %s" % l)
        mm, oo = outmap(s)
        if l not in c.ends:
            return chain([("false", O("ensures", "the step does not continue at %s" % l))])
        req = [x.replace("$this", "$out.this").replace("$_", "$out._") for x in MC.LABELS[l]]
        checks = [(ex.subst(x, mm), O("ensures", "at %s: %s" % (l, x))) for x in c.ends[l] + [r for r in req if r != "tables_ok()"]]
        code = chain(frame(s, oo, {"stacks"} if name in ("_match", "_test_eof") else ()) + checks)
        for h in reversed(c.end_hints.get(l, [])):
            code = Stmt(ex.subst(h, mm), code)
        return code
    ex.end = end

    def throw_k(s, kind, vs):
        exits[0] += 1
        if c.throws is None or kind != c.thrown:
            return Assert("false", O("throws", "no %s is thrown" % kind), Done())
        code = Done()
        msg = "false" if not vs else eq(ex.term(ex.coerce(ex.val(vs[0], s), T_STR), s), ex.subst(c.thrown_msg, m))
        if msg != "true":
            code = Assert(msg, O("message", "message of the %s is %s" % (kind, c.thrown_msg)), code)
        return Assert(ex.subst(c.throws, m), O("throws", "%s is thrown only when: %s" % (kind, c.throws)), Stmt("// exit", code))
    ex.throw_k = throw_k

    def ret(s, v):
        if c.ret is None:
            return chain([("false", O("ensures", "the step does not end the parse"))])
        mm, oo = outmap(s)
        checks = frame(s, oo)
        t = ex.ret_type(pieces.d)
        if c.throws is not None:
            checks.append((NOT_(ex.subst(c.throws, m)), O("throws", "throws whenever: %s" % c.throws)))
        checks.append((eq(ex.term(ex.ret_conv(v, t), s), ex.subst(c.ret, m)), O("ensures", "returns %s" % c.ret)))
        return chain(checks)

    def bad(what):
        def f(*a):
            raise Unsupported(what)
        return f
    base = K(lambda s: bad("parse() ends without a result")(), ret=ret, brk=bad("break"), cont=bad("continue"), thr=None)

    def run(level):
        """execute from the node on, then what follows it in the enclosing blocks"""
        def after(j):
            def f(s):
                if j < 0:
                    return base.next(s)
                n, i = path[j]
                return ex.seq(n["inner"], i + 1, s, base.but(next=after(j - 1)))
            return f
        if name == "start":
            return ex.seq(body_of(pieces.d)["inner"], 0, st, base)
        for n, _ in path:
            if n.get("kind") != "CompoundStmt":
                raise Unsupported("a label inside a statement")
        return ex.s(node["inner"][0], st, base.but(next=after(len(path) - 1)))
    code = run(0)
    for h in reversed(c.entry):
        code = Stmt(ex.subst(h, m), code)
    import ragel
    pre = [ex.subst(r, m) for r in c.requires] + ["tab_start() == %d" % ragel.load()["hext_start"]]
    return vcgen.make_job(ex, c, code, pre, trivial, exits[0], line_of(node))


def NOT_(x):
    return X.NOT(x)
