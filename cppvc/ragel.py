"""Decides, for the transition tables in /repo's generated Parser.cpp, that they recognise exactly the language of
cppvc/grammar.py and order exactly its actions: an inductive relation between table states and sets of grammar
positions is computed and every obligation (relation, byte) is evaluated.  Finite, complete, no bound on the text."""
import re
import cast
import grammar

NAMES = ["_hext_actions", "_hext_key_offsets", "_hext_trans_keys", "_hext_single_lengths", "_hext_range_lengths", "_hext_index_offsets",
         "_hext_indicies", "_hext_trans_targs", "_hext_trans_actions", "_hext_eof_actions"]


class Shape(Exception):
    """the tables are not in the form this decoder knows: no verdict"""


def load(path=None):
    src = open(path or cast.REPO + "/libhext/src/Parser.cpp").read()
    T = {}
    for m in re.finditer(r'static\s+const\s+((?:unsigned |signed )?(?:char|short|int))\s+(_?hext_\w+)\s*(\[\s*\d*\s*\])?\s*=\s*(\{[^}]*\}|[-\d]+)', src):
        v = m.group(4)
        try:
            T[m.group(2)] = [int(x) for x in v[1:-1].replace("\n", " ").split(",") if x.strip()] if v[0] == "{" else int(v)
        except ValueError:
            raise Shape("table %s is not a list of integers" % m.group(2))
        w = {"char": 8, "short": 16, "int": 32}[m.group(1).split()[-1]]
        lo, hi = (0, 2 ** w - 1) if m.group(1).startswith("unsigned") else (-2 ** (w - 1), 2 ** (w - 1) - 1)
        if v[0] == "{" and not all(lo <= x <= hi for x in T[m.group(2)]):
            raise Shape("table %s has values outside its type" % m.group(2))
    for n in NAMES + ["hext_start", "hext_error", "hext_first_final"]:
        if n not in T:
            raise Shape("table %s not found" % n)
    return T


class Tables:
    def __init__(self, T):
        self.T = T
        self.n = len(T["_hext_key_offsets"])
        self.start = T["hext_start"]
        self.bad = []
        self.wellformed()
        self.rows = {}

    def wellformed(self):
        """what the key lookup of the driver loop needs: indices in range, keys sorted"""
        T = self.T
        self.nob = 0

        def ob(x, what):
            self.nob += 1
            if not x:
                self.bad.append(what)
        for a in NAMES:
            if a in ("_hext_key_offsets", "_hext_single_lengths", "_hext_range_lengths", "_hext_index_offsets", "_hext_eof_actions"):
                ob(len(T[a]) >= self.n, a + " is too short")
        if self.bad:
            return
        ob(0 <= self.start < self.n, "start state out of range")
        K, A = T["_hext_trans_keys"], T["_hext_actions"]
        for s in range(self.n):
            k, n, r, ix = (T[a][s] for a in ("_hext_key_offsets", "_hext_single_lengths", "_hext_range_lengths", "_hext_index_offsets"))
            ob(0 <= k and n >= 0 and r >= 0 and k + n + 2 * r <= len(K), "state %d: keys out of range" % s)
            ob(0 <= ix and ix + n + r < len(T["_hext_indicies"]), "state %d: transitions out of range" % s)
            if self.bad:
                return
            ob(all(K[k + i] < K[k + i + 1] for i in range(n - 1)), "state %d: single keys not sorted" % s)
            R = [(K[k + n + 2 * i], K[k + n + 2 * i + 1]) for i in range(r)]
            ob(all(a <= b for a, b in R) and all(R[i][1] < R[i + 1][0] for i in range(r - 1)), "state %d: key ranges not sorted" % s)
            e = T["_hext_eof_actions"][s]
            ob(0 <= e < len(A) and e + A[e] < len(A) and A[e] >= 0, "state %d: end actions out of range" % s)
        nt = len(T["_hext_trans_targs"])
        for i, t in enumerate(T["_hext_indicies"]):
            ob(0 <= t < nt and t < len(T["_hext_trans_actions"]), "transition index %d out of range" % i)
        for i, t in enumerate(T["_hext_trans_targs"]):
            ob(0 <= t < self.n, "target of transition %d out of range" % i)
        for i, a in enumerate(T["_hext_trans_actions"]):
            ob(0 <= a < len(A) and (a == 0 or (A[a] >= 0 and a + A[a] < len(A))), "actions of transition %d out of range" % i)

    def row(self, s):
        """byte -> (target, actions)"""
        if s in self.rows:
            return self.rows[s]
        T = self.T
        k, n, r, ix = (T[a][s] for a in ("_hext_key_offsets", "_hext_single_lengths", "_hext_range_lengths", "_hext_index_offsets"))
        K = T["_hext_trans_keys"]
        out = []
        for b in range(256):
            c = b - 256 if b > 127 else b
            t = ix + n + r
            for i in range(n):
                if K[k + i] == c:
                    t = ix + i
                    break
            else:
                for i in range(r):
                    if K[k + n + 2 * i] <= c <= K[k + n + 2 * i + 1]:
                        t = ix + n + i
                        break
            t = T["_hext_indicies"][t]
            out.append((T["_hext_trans_targs"][t], self.acts(T["_hext_trans_actions"][t])))
        self.rows[s] = out
        return out

    def acts(self, a):
        A = self.T["_hext_actions"]
        return tuple(A[a + 1:a + 1 + A[a]]) if a else ()

    def end(self, s):
        # the driver does not skip 0 here: offset 0 holds an empty list
        a = self.T["_hext_eof_actions"][s]
        A = self.T["_hext_actions"]
        return tuple(A[a + 1:a + 1 + A[a]])


def tables_ok(T, names):
    """evaluates tables_ok() of spec/parser.rs for these tables, clause by clause -> (obligations, [what fails])"""
    bad, nob = [], [0]

    def ob(x, what):
        nob[0] += 1
        if not x:
            bad.append(what)
    n = len(T["_hext_key_offsets"])
    A, K, X = T["_hext_actions"], T["_hext_trans_keys"], T["_hext_indicies"]
    TT, TA, EA = T["_hext_trans_targs"], T["_hext_trans_actions"], T["_hext_eof_actions"]
    for a in ("_hext_single_lengths", "_hext_range_lengths", "_hext_index_offsets", "_hext_eof_actions"):
        ob(len(T[a]) >= n, a + " is too short")
    ob(0 < T["hext_start"] < n < 0x7fff, "start state")
    for a in ("_hext_actions", "_hext_indicies", "_hext_trans_keys", "_hext_trans_targs"):
        ob(len(T[a]) < 0x7fff, a + " is too long")
    ob(len(TA) >= len(TT), "_hext_trans_actions is too short")
    ob(len(K) >= 1, "_hext_trans_keys is empty")
    if bad:
        return nob[0], bad

    def acts_in(a):
        return 0 <= a < len(A) and A[a] >= 0 and a + A[a] < len(A)

    def acts(a):
        return A[a + 1:a + 1 + A[a]]
    error = {k for (w, k), x in names.items() if x == "unexpected"}
    for (w, k), x in names.items():
        ob((x == "unexpected") == (k in error), "action number %d is the error action in one switch and not in the other" % k)
    for s in range(n):
        k, ns, nr, ix = (T[a][s] for a in ("_hext_key_offsets", "_hext_single_lengths", "_hext_range_lengths", "_hext_index_offsets"))
        ob(k >= 0 and ns >= 0 and nr >= 0 and k + ns + 2 * nr <= len(K), "state %d: keys out of range" % s)
        ob(ix >= 0 and ix + ns + nr < len(X), "state %d: transitions out of range" % s)
        if bad:
            return nob[0], bad
        S = K[k:k + ns]
        R = [(K[k + ns + 2 * i], K[k + ns + 2 * i + 1]) for i in range(nr)]
        ob(all(x < y for x, y in zip(S, S[1:])), "state %d: keys not sorted" % s)
        ob(all(x <= y for x, y in R) and all(x[1] < y[0] for x, y in zip(R, R[1:])), "state %d: key ranges not sorted" % s)
        ob(acts_in(EA[s]), "state %d: end actions out of range" % s)
    for i, t in enumerate(X):
        ob(0 <= t < len(TT), "transition index %d out of range" % i)
    for i, t in enumerate(TT):
        ob(0 <= t < n, "target of transition %d out of range" % i)
        ob(TA[i] >= 0 and (TA[i] == 0 or acts_in(TA[i])), "actions of transition %d out of range" % i)
        if acts_in(TA[i]):
            ob(t != 0 or (TA[i] > 0 and any(k in error for k in acts(TA[i]))), "transition %d ends the machine without an error" % i)
    if not bad:
        ob(A[EA[T["hext_start"]]] == 0, "end actions in the start state")
    return nob[0], bad


def completions(tabs, nfa, w):
    """texts that begin with w: w itself, its shortest completion in the documented language and in the machine's"""
    out = [list(w)]
    for cut in range(len(w) + 1):
        P, s = frozenset([nfa.start]), tabs.start
        v = w[:len(w) - cut]
        for b in v:
            P = frozenset(m for n in P for _, m in nfa.steps(n, b))
            s = tabs.row(s)[b][0] if s else 0
        if P:
            todo, seen = [(p, v) for p in P], set(P)
            for p, x in todo:
                if nfa.ends(p):
                    out.append(list(x))
                    break
                for _, m in nfa.closure(p):
                    for cset, k in nfa.chr[m]:
                        if k not in seen:
                            seen.add(k)
                            todo.append((k, x + [next((ord(c) for c in "ai1=\"/>" if ord(c) in cset), min(cset))]))
        if s and cut == 0:
            todo, seen = [(s, v)], {s}
            for p, x in todo:
                if not tabs.end(p):
                    out.append(list(x))
                    break
                for b, (t, _) in enumerate(tabs.row(p)):
                    if t and t not in seen:
                        seen.add(t)
                        todo.append((t, x + [b]))
        if P:
            break
    # close what the text may leave open
    more = []
    for x in out[1:]:
        if bytes(x[-1:]) == b">" and bytes(x[-2:-1]) != b"/":
            more.append(x[:-1] + list(b"/>"))
        more += [x + list(e) for e in (b"</*>", b"</a>", b"}", b"}</*>", b"<a/>}", b"<a/>}</*>")]
    return out + more


def token_ends(g):
    out = set()

    def go(x):
        if x[0] == "seq" and x[1] and x[1][0] == ("act", "begin"):
            out.add(x[1][2][1])
        if x[0] in ("seq", "alt"):
            for y in x[1]:
                go(y)
        if x[0] == "star":
            go(x[1])
        if x[0] == "scope":
            go(x[1][1])
    go(g)
    return out


def printable(w):
    return repr(bytes(w))[1:]


def product(tabs, nfa=None):
    """-> dict(obligations, discharged, failures [(word, kind, what)], names {action id: name}, end_names, pairs)"""
    g = grammar.grammar()
    nfa = nfa or grammar.NFA(g)
    ENDS = token_ends(g)
    USES = ENDS | {"regex"}
    # positions at which the beginning of the token still matters
    inside = {n: False for n in range(len(nfa.eps))}
    changed = True
    while changed:
        changed = False
        for n in inside:
            if not inside[n] and (any(a in USES or (a != "begin" and inside[m]) for a, m in nfa.eps[n]) or any(inside[m] for _, m in nfa.chr[n])):
                inside[n] = changed = True
    start = (tabs.start, frozenset([nfa.start]))
    seen = {start: None}
    order = [start]
    steps = []         # (pair, byte or None, [paths (acts, from, to)], table acts)
    fails = []
    nob = 0

    def word(pair, b=None):
        w = [] if b is None else [b]
        while seen[pair] is not None:
            pair, c = seen[pair]
            w.append(c)
        return w[::-1]
    groups = {}
    i = 0
    while i < len(order):
        pair = order[i]
        i += 1
        s, P = pair
        row = tabs.row(s)
        cache = {}
        for b in range(256):
            nob += 1
            paths = [(a, n, m) for n in P for a, m in nfa.steps(n, b)]
            t, acts = row[b]
            if not paths:
                if t != 0:
                    fails.append((word(pair, b), "accept", "accepted, but no continuation of %s is in the documented language" % printable(word(pair, b))))
                else:
                    steps.append((pair, b, None, acts))
                continue
            if t == 0:
                fails.append((word(pair, b), "reject", "rejected at the last byte, but the documented language continues with it"))
                continue
            key = (t, acts, tuple(sorted(paths)))
            if key not in cache:
                cache[key] = 1
                steps.append((pair, b, paths, acts))
            q = (t, frozenset(m for _, _, m in paths))
            if q not in seen:
                seen[q] = (pair, b)
                order.append(q)
        nob += 1
        ends = [(a, n, None) for n in P for a in nfa.ends(n)]
        steps.append((pair, None, ends or None, tabs.end(s)))
    # names of the action numbers: intersection over all uses, then elimination
    cand = {}

    def idlist(st):
        return [("e" if st[1] is None else "t", k) for k in st[3]]
    for st_ in steps:
        u = set(["unexpected"]) if st_[2] is None else set(x for a, _, _ in st_[2] for x in a)
        for k in idlist(st_):
            cand[k] = cand[k] & u if k in cand else set(u)
    changed = True
    while changed:
        changed = False
        for st_ in steps:
            if st_[2] is None:
                continue
            ids = set(idlist(st_))
            count = {}
            for a, _, _ in st_[2]:
                for x in set(a):
                    count[x] = max(count.get(x, 0), a.count(x))
            for x, c in count.items():
                if x == "begin":
                    continue
                fixed = [k for k in ids if cand[k] == {x}]
                if len(fixed) == c:
                    for k in ids:
                        if k not in fixed and x in cand[k]:
                            cand[k].discard(x)
                            changed = True
    names = {}
    for k, c in cand.items():
        if len(c) == 1:
            names[k] = next(iter(c))
        elif not c:
            names[k] = None
        else:
            names[k] = tuple(sorted(c))

    def sim(acts, tb):
        """the tokens handed to actions (started earlier/now), the other actions, the open token afterwards"""
        out = []
        for x in acts:
            if x == "begin":
                tb = "now"
            elif x in USES:
                out.append((x, tb))
            else:
                out.append((x, None))
        return out, tb
    for st_ in steps:
        pair, b, paths, acts = st_
        L = [names[k] for k in idlist(st_)]
        w = word(pair, b) if b is not None else word(pair)
        where = "after %s at the end of the text" % printable(w) if b is None else "at the last byte of %s" % printable(w)
        if paths is None:
            if L != ["unexpected"]:
                fails.append((w, "error", "%s: the error action is not exactly 'unexpected character'" % where))
            continue
        for a, n, m in paths:
            want, tw = sim(a, "old")
            got, tg = sim(L, "old")
            if want != got or (m is not None and inside[m] and tw != tg):
                differ = {x for x, _ in set(want) ^ set(got)} or {x for x, _ in want} or {"begin"}
                fails.append((w, "actions " + " ".join(sorted(map(str, differ))), "%s: actions %s are performed where the documented construct calls for %s" % (where, [x if isinstance(x, str) else "number %s" % k[1] for x, k in zip(L, idlist(st_))], list(a))))
                break
    return {"obligations": nob + tabs.nob, "failures": fails, "names": names, "pairs": len(order), "steps": len(steps), "inside": inside, "nfa": nfa}


if __name__ == "__main__":
    import time
    t = time.time()
    tabs = Tables(load())
    r = product(tabs)
    print(tabs.bad[:5], r["obligations"], r["pairs"], len(r["failures"]), "%.1f s" % (time.time() - t))
    for w, k, x in r["failures"][:12]:
        print(printable(w), k, x)
    for k in sorted(r["names"]):
        print(k, r["names"][k])
