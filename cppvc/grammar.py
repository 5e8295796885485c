"""The documented hext language as a grammar with named actions, and its automaton.

This file is the specification side of C16-C19: it is not derived from the code under check.  An action name
stands between the characters of a construct; it takes effect when the next character has been accepted (or the
text ends), because only then the construct before it is known to be complete.  What every action does is the
contract of that name (contracts/parser.py) and, independently, the replay harness (replay/lang.cpp)."""

ALL = frozenset(range(256))


def cs(s):
    return frozenset(ord(c) for c in s)


ALPHA = cs("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = cs("0123456789")
ALNUM = ALPHA | DIGIT
SPACE = cs(" \t\n\v\f\r")


# ---- expressions: tuples
def lit(s):
    return ("seq", [("set", frozenset([ord(c)])) for c in s])


def one(chars):
    return ("set", frozenset(chars))


def seq(*a):
    return ("seq", [lit(x) if isinstance(x, str) else x for x in a])


def alt(*a):
    return ("alt", [lit(x) if isinstance(x, str) else x for x in a])


def star(x):
    return ("star", x)


def plus(x):
    return ("seq", [x, ("star", x)])


def opt(x):
    return ("alt", [x, ("seq", [])])


def act(name):
    return ("act", name)


def scope(name, x):
    """x is a construct of its own: what is written in it concerns nothing outside except its result"""
    return ("scope", (name, x))


def token(x, name):
    """the characters of x are remembered as the current token and handed to action name"""
    return ("seq", [("act", "begin"), x, ("act", name)])


def quoted_by(q, name):
    """everything up to the next q that no backslash precedes; the backslashes stay part of the value"""
    q = ord(q)
    bs = ord("\\")
    body = star(alt(one(ALL - {q, bs}), seq(plus(one({bs})), one(ALL - {bs}))))
    return seq(one({q}), token(body, name), one({q}))


def grammar():
    literal = alt(quoted_by('"', "literal"), quoted_by("'", "literal"))
    regex = scope("regex", seq(alt(quoted_by("/", "pattern"), quoted_by("'", "pattern"), quoted_by('"', "pattern")),
                               star(alt(seq("i", act("flag_i")), seq("c", act("flag_c")))), act("regex")))
    digits = plus(one(DIGIT))
    nth = scope("nth", alt(seq("even", act("nth_even")), seq("odd", act("nth_odd")),
              seq(token(seq(opt(lit("-")), digits), "nth_number"),
                  opt(seq("n", act("nth_n"), opt(token(seq(one(cs("+-")), digits), "nth_shift")))))))
    trait = scope("trait", seq(":", alt(
        seq("empty", act("t_empty")),
        seq("child-count(", token(digits, "t_child_count"), ")"),
        seq("attribute-count(", token(digits, "t_attribute_count"), ")"),
        seq("nth-child(", nth, ")", act("t_nth_child")),
        seq("nth-last-child(", nth, ")", act("t_nth_last_child")),
        seq("nth-of-type(", nth, ")", act("t_nth_of_type")),
        seq("nth-last-of-type(", nth, ")", act("t_nth_last_of_type")),
        seq("first-child", act("t_first_child")),
        seq("first-of-type", act("t_first_of_type")),
        seq("last-child", act("t_last_child")),
        seq("last-of-type", act("t_last_of_type")),
        seq("only-child", act("t_only_child")),
        seq("only-of-type", act("t_only_of_type")),
        seq("type-matches(", regex, ")", act("t_type_matches")))))
    not_trait = scope("not", seq(":not(", act("not_begin"), plus(seq(trait, act("not_add"))), ")"))
    builtin = seq("@", alt(seq("text", act("b_text")), seq("inner-html", act("b_inner_html")), seq("strip-tags", act("b_strip_tags"))))
    pipe = scope("pipe", seq(":", alt(
        seq("trim", act("p_trim")),
        seq("trim(", literal, ")", act("p_trim_literal")),
        seq("collapsews", act("p_collapsews")),
        seq("tolower", act("p_tolower")),
        seq("toupper", act("p_toupper")),
        seq("prepend(", literal, ")", act("p_prepend")),
        seq("append(", literal, ")", act("p_append")),
        seq("filter(", regex, ")", act("p_filter")),
        seq("replace(", regex, star(one(SPACE)), ",", star(one(SPACE)), literal, ")", act("p_replace")))))
    capture = seq(star(pipe), ":", alt(seq(literal, act("name_literal")), token(plus(one(ALNUM | cs("-_."))), "name")))
    operator = alt(seq("=", literal, act("o_words")), seq("==", literal, act("o_equals")), seq("^=", literal, act("o_begins")),
                   seq("*=", literal, act("o_contains")), seq("$=", literal, act("o_ends")), seq("=~", regex, act("o_regex")))
    negate = seq("!", act("negate"))
    attribute = token(seq(one(ALPHA), star(one(ALNUM | cs("-_")))), "attr_name")
    pattern = scope("pattern", seq(plus(one(SPACE)), alt(
        seq(builtin, capture, act("add_function_capture")),
        seq(builtin, operator, opt(negate), act("add_function_match")),
        seq(attribute, capture, opt(seq("?", act("optional_capture"))), act("add_attribute_capture")),
        seq(attribute, operator, opt(negate), act("add_attribute_match")),
        seq(attribute, act("no_test"), opt(negate), act("add_attribute_match"))), act("pattern_end")))
    tag = alt("*", seq(one(ALPHA), star(one(ALNUM | cs("-_")))))
    rule = alt(
        scope("rule", seq("<", act("open_rule"), star(alt(seq("?", act("set_optional")), seq("+", act("set_greedy")))), token(tag, "open_tag"),
            star(alt(seq(not_trait, act("add_not")), seq(trait, act("add_trait")))), star(pattern), star(one(SPACE)),
            alt(seq("/>", act("close_rule")), ">"))),
        scope("end", seq("</", token(tag, "close_tag"), ">")))
    return star(alt(one(SPACE), seq("#", star(one(ALL - {10})), "\n"), seq("{", act("open_nested")), seq("}", act("close_nested")), rule))


# ---- automaton: nodes with epsilon edges that carry actions, and character edges
class NFA:
    def __init__(self, g=None):
        self.eps = []      # node -> [(action or None, node)]
        self.chr = []      # node -> [(frozenset, node)]
        self.start = self.new()
        self.final = self.build(g or grammar(), self.start)
        self.cl = {}

    def new(self):
        self.eps.append([])
        self.chr.append([])
        return len(self.eps) - 1

    def build(self, g, n):
        k, x = g
        if k == "set":
            m = self.new()
            self.chr[n].append((x, m))
            return m
        if k == "act":
            m = self.new()
            self.eps[n].append((x, m))
            return m
        if k == "scope":
            return self.build(x[1], n)
        if k == "seq":
            for y in x:
                n = self.build(y, n)
            return n
        if k == "alt":
            m = self.new()
            for y in x:
                self.eps[self.build(y, n_ := self.fork(n))].append((None, m))
            return m
        if k == "star":
            h = self.fork(n)
            e = self.build(x, self.fork(h))
            self.eps[e].append((None, h))
            return h
        raise AssertionError(k)

    def fork(self, n):
        m = self.new()
        self.eps[n].append((None, m))
        return m

    def closure(self, n):
        """[(actions, node)] reachable without a character; every node once per action list"""
        if n in self.cl:
            return self.cl[n]
        out, seen = [], set()
        st = [((), n)]
        while st:
            a, m = st.pop()
            if (a, m) in seen:
                continue
            assert len(a) < 12, "an action on an empty loop"
            seen.add((a, m))
            if self.chr[m] or m == self.final:
                out.append((a, m))
            for x, k in self.eps[m]:
                st.append((a + (x,) if x else a, k))
        self.cl[n] = out
        return out

    def steps(self, n, c):
        """[(actions, successor)] for character c"""
        out = []
        for a, m in self.closure(n):
            for s, k in self.chr[m]:
                if c in s:
                    out.append((a, k))
        return out

    def ends(self, n):
        return [a for a, m in self.closure(n) if m == self.final]


def header(nfa=None):
    """the automaton for the replay harness, after removal of epsilon edges"""
    n = nfa or NFA()
    ids = {n.start: 0}
    order = [n.start]
    rows = []
    names = []

    def aid(x):
        if x not in names:
            names.append(x)
        return names.index(x)
    i = 0
    while i < len(order):
        s = order[i]
        i += 1
        for a, m in n.closure(s):
            for cset, k in n.chr[m]:
                if k not in ids:
                    ids[k] = len(order)
                    order.append(k)
                rows.append((ids[s], [aid(x) for x in a], cset, ids[k]))
    fin = [(ids[s], [aid(x) for x in a]) for s in order for a in n.ends(s)]
    o = ["static const char * const G_ACTIONS[] = {%s};" % ",".join('"%s"' % x for x in names)]
    o.append("struct GEdge { int from; std::vector<int> acts; const char * set; int to; };")
    o.append("static const std::vector<GEdge> G_EDGES = {")
    for f, a, c, t in rows:
        bits = bytearray(32)
        for x in c:
            bits[x >> 3] |= 1 << (x & 7)
        o.append("{%d,{%s},\"%s\",%d}," % (f, ",".join(map(str, a)), "".join("\\%03o" % b for b in bits), t))
    o.append("};")
    o.append("static const std::vector<std::pair<int, std::vector<int>>> G_ENDS = {%s};" % ",".join("{%d,{%s}}" % (s, ",".join(map(str, a))) for s, a in fin))
    o.append("static const int G_STATES = %d;" % len(order))
    return "\n".join(o) + "\n"


if __name__ == "__main__":
    n = NFA()
    print(len(n.eps), "nodes", len(header(n)), "bytes of header")
