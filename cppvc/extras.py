"""Finite obligations besides the contracts: the transition tables of the generated machine against the documented
grammar, and what the grammar owes its actions' contracts.  Everything is evaluated completely; there is no bound."""
import grammar
import grammar_facts
import ragel


def verdict(name, nob, bad, **k):
    return dict({"name": name, "ok": not bad, "detail": "\n".join(bad[:12]), "obligations": nob, "discharged": nob - min(len(bad), nob)}, **k)


def shape(S, name):
    """no verdict: the machine is not in the form the decoder knows"""
    return {"name": name, "ok": False, "bounded": True, "detail": "not decided on this tree: " + S.machine_err, "obligations": 0, "discharged": 0, "search": True}


def tables(S, tier, seed):
    name = "Parser::parse/tables: every index, key range and action list is well-formed (tables_ok)"
    if not S.machine:
        return shape(S, name)
    T = S.tables.T
    nob, bad = ragel.tables_ok(T, S.machine["names"])
    bad = S.tables.bad + bad
    if S.pieces:
        for (w, k), x in sorted(S.machine["names"].items()):
            nob += 1
            if (w, k) not in S.pieces.case:
                bad.append("action %d of the tables (%s) has no case in the switch %s" % (k, x, {"t": "over transitions", "e": "at the end of the text"}[w]))
    return verdict(name, nob, bad)


NESTING = {"open_rule", "open_tag", "close_rule", "close_tag", "open_nested", "close_nested"}
NAME = "Parser::parse/tables: the machine accepts exactly the documented language and performs exactly the documented actions"


def concerns(prop, kind):
    k, *names = kind.split()
    if k == "actions":
        n = set(names)
        return {"C16": bool(n & NESTING), "C18": bool(n - NESTING), "C17": False, "C19": "None" in n or "unexpected" in n}.get(prop, False)
    return {"accept": {"C17", "C19"}, "reject": {"C17"}, "error": {"C17", "C19"}}[k].__contains__(prop)


def language(prop):
    def f(S, tier, seed):
        if not S.machine:
            return shape(S, NAME)
        m = S.machine
        mine = [x for x in m["failures"] if concerns(prop, x[1])]
        rest = [x for x in m["failures"] if not concerns(prop, x[1])]
        words = [w for x in (mine + rest)[:40] for w in ragel.completions(S.tables, m["nfa"], x[0])]
        if rest and not mine:
            # another property's failure: what this one rests on is not established, so only searched
            return verdict(NAME, m["obligations"], [x[2] for x in rest], words=words, bounded=True, search=True)
        return verdict(NAME, m["obligations"], [x[2] for x in mine], words=words, pairs=m["pairs"])
    return f


def facts(S, tier, seed):
    nob, bad = grammar_facts.facts(grammar.NFA())
    return verdict("grammar: the precondition of every action holds wherever the grammar performs it", nob, bad)


def numbers(S, tier, seed):
    nob, bad = grammar_facts.numbers(grammar.grammar())
    return verdict("grammar: a token read as a number is one", nob, bad)


def fresh(S, tier, seed):
    nob, bad = grammar_facts.fresh(grammar.grammar())
    return verdict("grammar: no construct hands on a value left over from another", nob, bad)
