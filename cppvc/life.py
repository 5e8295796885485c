"""The text of a document must stay where it is while the document is used: a parse result points into it.

Where a document (hext::Html) is put into a container, the string it was made from must live at least as long as that
container and must not move.  The string is known by the place c_str()/data() was taken from."""
from cast import *
from vals import *
import exec as X


def place_of(vs):
    for x in vs:
        if isinstance(x, Obj) and x.src is not None:
            return x.src
    return None


def holders(tu, i):
    """the function a declaration is in, and the blocks and loops around it"""
    r, n = [], tu.parent.get(i)
    while n is not None:
        k = n.get("kind", "")
        if k in ("FunctionDecl", "CXXMethodDecl", "LambdaExpr", "CXXConstructorDecl"):
            return n, r
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "CompoundStmt", "IfStmt", "SwitchStmt"):
            r.append(n["id"])
        n = tu.parent.get(n.get("id"))
    return None, r


def root(l):
    """(variable, is it reached through a vector)"""
    through = False
    while hasattr(l, "b"):
        if isinstance(l, LIdx):
            through = True
        l = l.b
    return (l.k if isinstance(l, LKey) else None), through


def is_doc(t):
    return t.k == "cls" and t.name == "Html"


def keep(ex, l, vs, st, node, k):
    """a document joins the vector l"""
    src = place_of(vs)
    if src is None:
        raise Unsupported("it is not known where the text of a document is kept")
    v, through = root(src)
    dest, _ = root(l)
    if isinstance(src, LTmp) or isinstance(src, V) or v is None or v.startswith("tmp:"):
        return ex.ob("false", "free", "the text of a document outlives it (it is a temporary)", node, k(st))
    if dest is None or v not in ex.tu.byid or dest not in ex.tu.byid:
        raise Unsupported("it is not known how long the text of a document is kept")
    (fs, hs), (fd, hd) = holders(ex.tu, v), holders(ex.tu, dest)
    if fs is None or fd is None or fs is not fd and "main" not in (fs.get("name"), fd.get("name")):
        raise Unsupported("it is not known how long the text of a document is kept")
    # a variable of main outlives those of the functions it calls
    ok = all(h in hd for h in hs) if fs is fd else fs.get("name") == "main"
    st = st.put("ghost:lent:" + v, V(T_BOOL, "true"))
    return ex.ob("true" if ok else "false", "free", "the text of a document outlives it", node, k(st))


def grow(ex, l, ln, st, node, k):
    """a vector of strings grows: the strings move unless there is room"""
    v, _ = root(l)
    lent = st.env.get("ghost:lent:%s" % v)
    if lent is None or lent.e == "false":
        return k(st)
    cap = st.env.get("ghost:room:%s" % v)
    c = "(%s < %s)" % (ln, cap.e) if cap is not None else "false"
    return ex.ob(c if lent.e == "true" else "(%s ==> %s)" % (lent.e, c), "free", "the texts of documents do not move", node, k(st))


def moved(ex, l, st, node, k, what):
    v, _ = root(l)
    lent = st.env.get("ghost:lent:%s" % v)
    if lent is None or lent.e == "false":
        return k(st)
    return ex.ob("(!(%s))" % lent.e, "free", "the text of a document is not changed (%s)" % what, node, k(st))


def room(ex, l, n, st):
    v, _ = root(l)
    if v is None or "ghost:lent:%s" % v not in st.env:
        return st
    old = st.env.get("ghost:room:%s" % v)
    return st.put("ghost:room:%s" % v, V(T_I64, n if old is None else "(if %s < %s { %s } else { %s })" % (old.e, n, n, old.e)))


def declared(ex, d, t, st):
    """strings that documents may be made from"""
    if ex.fname == "main" and t.k == "vec" and t.args[0].k == "str":
        st = st.put("ghost:lent:" + d["id"], V(T_BOOL, "false")).put("ghost:room:" + d["id"], V(T_I64, "0"))
    elif ex.fname == "main" and t.k == "str":
        st = st.put("ghost:lent:" + d["id"], V(T_BOOL, "false"))
    return st
