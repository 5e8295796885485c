"""What an action of the grammar may rely on, decided over every path of the grammar (finite, complete):

facts    every action's preconditions (contracts/actions.py, `needs`) hold wherever the grammar performs it
numbers  a token handed to a number conversion is a number as the conversion's contract requires
fresh    a pending value handed on was written by the construct that hands it on, or has its initial value:
         nothing is carried over from one construct to another"""
import grammar
from contracts.actions import ACTIONS, FACTS, INITIAL

INT = {0: "sign or digit", 1: "after the sign", 2: "digits"}


def flow(nfa):
    """facts known at every position of the automaton"""
    at = {nfa.start: frozenset(INITIAL)}
    work = [nfa.start]
    while work:
        n = work.pop()
        f = at[n]
        nxt = []
        for a, m in nfa.eps[n]:
            g = f
            if a:
                x = ACTIONS[a]
                g = (f - x["kill"]) | x["gen"]
            nxt.append((frozenset(g), m))
        for _, m in nfa.chr[n]:
            nxt.append((f | {"pos"}, m))
        for g, m in nxt:
            h = at[m] & g if m in at else g
            if m not in at or h != at[m]:
                at[m] = h
                work.append(m)
    return at


def facts(nfa):
    ob, bad = 0, []
    at = flow(nfa)
    for n in at:
        for a, m in nfa.eps[n]:
            if a:
                for x in ACTIONS[a]["needs"]:
                    ob += 1
                    if x not in at[n]:
                        bad.append("action %s is performed where '%s' is not known" % (a, FACTS[x]))
    return ob, sorted(set(bad))


def tokens(g, out):
    if g[0] == "seq" and g[1] and g[1][0] == ("act", "begin"):
        out.append((g[1][1], g[1][2][1]))
    if g[0] in ("seq", "alt"):
        for y in g[1]:
            tokens(y, out)
    if g[0] == "star":
        tokens(g[1], out)
    if g[0] == "scope":
        tokens(g[1][1], out)
    return out


def numbers(g):
    ob, bad = 0, []
    for body, a in tokens(g, []):
        kind = ACTIONS[a]["number"]
        if not kind:
            continue
        n = grammar.NFA(body)
        st, seen = [(n.start, 0)], {(n.start, 0)}
        while st:
            p, d = st.pop()
            for acts, m in n.closure(p):
                if m == n.final:
                    ob += 1
                    if d != 2:
                        bad.append("the token of %s can be something else than a number" % a)
                for s, k in n.chr[m]:
                    for cset, e in ((s & grammar.DIGIT, 2), (s & grammar.cs("+-") if d == 0 and kind is True else frozenset(), 1)):
                        if cset and (k, e) not in seen:
                            seen.add((k, e))
                            st.append((k, e))
                    ob += 1
                    if s - grammar.DIGIT - (grammar.cs("+-") if d == 0 and kind is True else frozenset()):
                        bad.append("the token of %s can contain other characters than those of a number" % a)
    return ob, sorted(set(bad))


def fresh(g):
    """value of a field: "D" initial, or the depth of the construct it was written in"""
    nob, bad = set(), set()

    def join(a, b):
        return {f: a.get(f, frozenset("D")) | b.get(f, frozenset("D")) for f in set(a) | set(b)}

    def go(x, env, scopes):
        k, y = x
        if k == "set":
            return env
        if k == "act":
            a = ACTIONS[y]
            for f, s in a["uses"]:
                nob.add((y, f, s, tuple(scopes)))
                if s not in scopes:
                    bad.add("%s uses '%s' outside of a %s" % (y, f, s))
                    continue
                d = len(scopes) - scopes[::-1].index(s)
                for v in env.get(f, frozenset("D")):
                    if v != "D" and v < d:
                        bad.add("%s hands on '%s', which may be left over from an earlier construct" % (y, f))
            env = dict(env)
            for f in a["sets"]:
                env[f] = frozenset([len(scopes)])
            for f in a["resets"]:
                env[f] = frozenset("D")
            return env
        if k == "scope":
            e = go(y[1], env, scopes + [y[0]])
            return {f: frozenset(v if v == "D" or v <= len(scopes) else len(scopes) for v in s) for f, s in e.items()}
        if k == "seq":
            for z in y:
                env = go(z, env, scopes)
            return env
        if k == "alt":
            out = None
            for z in y:
                e = go(z, env, scopes)
                out = e if out is None else join(out, e)
            return out
        if k == "star":
            while True:
                e = join(env, go(y, env, scopes))
                if e == env:
                    return env
                env = e
        raise AssertionError(k)
    # the initial loop: fields are initial
    go(g, {}, [])
    return len(nob), sorted(bad)


if __name__ == "__main__":
    import sys
    g = grammar.grammar()
    print(facts(grammar.NFA(g)), numbers(g), fresh(g))
