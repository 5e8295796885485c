"""What every named action of the grammar (cppvc/grammar.py) does to the state of the parser (C16, C18, C19).

State: the parser's stacks, the pending values pv, tb (where the current token begins), tok (the last token).
Everything an action does not name stays as it is.  `facts` are what an action may rely on; cppvc/grammar_facts.py
shows that they hold wherever the grammar performs the action.  `uses` are the pending values it hands on: they must
have been written by the construct named, or be in their initial state (no leak from one construct to another)."""
from vcgen import Contract

P = "hext::Parser::parse/"
CONTRACTS = []
ACTIONS = {}

FACTS = {
    "pos": "parser_pos($this) > 0",
    "tok": "tok_ok($this, $tb)",
    "open": "$this.stacks.last().len() > 0",
    "regex": "$pv.regex is Some",
    "test": "$pv.test is Some",
    "trait": "$pv.trait is Some",
    "negate": "is_negate($pv.negate)",
    "builtin": "!($pv.builtin is Null)",
    "nopipe": "$pv.pipe is None",
    "notest": "$pv.test is None",
    "notrait": "$pv.trait is None",
    "nonegate": "$pv.negate is None",
}
INITIAL = {"nopipe", "notest", "notrait", "nonegate"}
NUMBER = "num_shape(cp_text($tb, $this.p))"
DIGITS = "all_digits(cp_text($tb, $this.p))"
TK = "cp_text($tb, $this.p)"
ST = "$this.stacks"
TX, POS = "parser_text($this)", "parser_pos($this)"


def A(name, out=None, needs=(), gen=(), kill=(), uses=(), sets=(), resets=(), number=False, throws=None, msg=None, props=("C18",), end=False, entry=()):
    """end: the action completes the current token; sets: pending values written by the construct; resets: back to the initial value"""
    out = dict(out or {})
    if end:
        out["tok"] = TK
        needs = tuple(needs) + ("tok",)
        sets = tuple(sets) + ("tok",)
    if throws:
        needs = tuple(needs) + ("pos",)
    ACTIONS[name] = {"needs": tuple(needs), "gen": set(gen), "kill": set(kill), "uses": tuple(uses), "sets": tuple(sets), "resets": tuple(resets), "number": number}
    req = ["parser_at($this)", "stacks_ok(%s)" % ST] + [FACTS[f] for f in needs] + ([NUMBER if number is True else DIGITS] if number else [])
    ens = ["stacks_ok($out.this.stacks)"]
    for f, e in FACTS.items():
        after = e.replace("$this", "$out.this").replace("$pv", "$out.pv").replace("$tb", "$out.tb")
        if f in gen:
            ens.append(after)
        elif f not in kill:
            ens.append("(%s) ==> (%s)" % (e, after))
    CONTRACTS.append(Contract(P + name, out=out, requires=req, ensures=ens, throws=throws, thrown="SyntaxError" if throws else None, thrown_msg=msg, props=props, entry=entry))
    CONTRACTS[-1].fragment = True


def box(x):
    return "Some(Box::new(%s))" % x


A("begin", {"tb": "$this.p"}, gen=["tok"])
for n, f in (("attr_name", "attr_name"), ("literal", "literal_value"), ("name", "cap_var")):
    A(n, {"pv." + f: TK}, end=True, sets=[f])
A("pattern", end=True)
A("name_literal", {"pv.cap_var": "$pv.literal_value"}, uses=[("literal_value", "pattern")], sets=["cap_var"])
A("nth_even", {"pv.nth": "(2i32, 0i32)"}, sets=["nth"])
A("nth_odd", {"pv.nth": "(2i32, 1i32)"}, sets=["nth"])
SAME = ["assert(wrap_u64(($this.p.off - $tb.off)) == $this.p.off - $tb.off);", "assert(cp_take($tb, wrap_u64(($this.p.off - $tb.off))) =~= %s);" % TK]
RANGE_ = dict(number=True, entry=SAME, throws="!fits_int(%s)" % TK, msg="msg_error(%s, %s, num_range())" % (TX, POS))
NUM = "num_of(%s)" % TK
A("nth_number", {"pv.nth": "(0i32, %s as i32)" % NUM}, end=True, sets=["nth"], **RANGE_)
A("nth_n", {"pv.nth": "($pv.nth.1, 0i32)"}, uses=[("nth", "nth")], sets=["nth"])
A("nth_shift", {"pv.nth": "($pv.nth.0, %s as i32)" % NUM}, end=True, uses=[("nth", "nth")], sets=["nth"], **RANGE_)
A("flag_i", {"pv.regex_flag": "flag_or($pv.regex_flag, %d)" % (1 << 20)}, uses=[("regex_flag", "regex")], sets=["regex_flag"])
A("flag_c", {"pv.regex_flag": "flag_or($pv.regex_flag, %d)" % (1 << 21)}, uses=[("regex_flag", "regex")], sets=["regex_flag"])
A("regex", {"pv.regex": "Some(rx_make($tok, $pv.regex_flag as int))", "pv.regex_flag": "0u32"}, needs=["tok"], gen=["regex"], uses=[("tok", "regex"), ("regex_flag", "regex")],
  sets=["regex"], resets=["regex_flag"],
  throws="!rx_valid($tok, $pv.regex_flag as int)",
  msg="msg_regex(%s, %s, $this.p.off - $tb.off + 1, rx_error_code($tok, $pv.regex_flag as int))" % (TX, POS))

RX = "$pv.regex->Some_0"


def TRAIT(n, m, **k):
    A(n, {"pv.trait": box("MatchV::" + m)}, gen=["trait"], kill=["notrait"], sets=["trait"], **k)


TRAIT("t_empty", "ChildCountMatch{child_count: 0u32}")
COUNT = dict(RANGE_, number="digits", entry=SAME + ["lemma_digits(%s);" % TK])
TRAIT("t_child_count", "ChildCountMatch{child_count: %s as u32}" % NUM, end=True, **COUNT)
TRAIT("t_attribute_count", "AttributeCountMatch{attribute_count: %s as u32}" % NUM, end=True, **COUNT)
FIRST, LAST, OFTYPE = 2, 4, 8
for n, o in (("t_nth_child", FIRST), ("t_nth_last_child", LAST), ("t_nth_of_type", FIRST | OFTYPE), ("t_nth_last_of_type", LAST | OFTYPE)):
    TRAIT(n, "NthChildMatch{step: $pv.nth.0, shift: $pv.nth.1, options: %du32}" % o, uses=[("nth", "trait")])
for n, o in (("t_first_child", FIRST), ("t_last_child", LAST), ("t_first_of_type", FIRST | OFTYPE), ("t_last_of_type", LAST | OFTYPE)):
    TRAIT(n, "NthChildMatch{step: 0i32, shift: 1i32, options: %du32}" % o)
TRAIT("t_only_child", "OnlyChildMatch{options: 2u32}")
TRAIT("t_only_of_type", "OnlyChildMatch{options: 4u32}")
TRAIT("t_type_matches", "TypeRegexMatch{rx: %s}" % RX, needs=["regex"], uses=[("regex", "trait")])

A("not_begin", {"pv.negate": box("MatchV::NegateMatch{matches: Seq::empty()}")}, gen=["negate"], kill=["nonegate"], sets=["negate"])
A("not_add", {"pv.negate": "negated($pv.negate, $pv.trait)", "pv.trait": "None"}, needs=["negate", "trait"], gen=["notrait"], kill=["trait"],
  uses=[("negate", "not"), ("trait", "not")], sets=["negate"], resets=["trait"])
A("add_not", {"stacks": "add_match(%s, $pv.negate)" % ST, "pv.negate": "None"}, needs=["open", "negate"], gen=["nonegate"], kill=["negate"], uses=[("negate", "rule")], resets=["negate"])
A("add_trait", {"stacks": "add_match(%s, $pv.trait)" % ST, "pv.trait": "None"}, needs=["open", "trait"], gen=["notrait"], kill=["trait"], uses=[("trait", "rule")], resets=["trait"])

for n, f in (("b_text", "Text"), ("b_inner_html", "InnerHtml"), ("b_strip_tags", "StripTags")):
    A(n, {"pv.builtin": "FnV::" + f}, gen=["builtin"], sets=["builtin"])

LIT = "$pv.literal_value"


def PIPE(n, k, uses=(), needs=()):
    A(n, {"pv.pipe": "add_pipe($pv.pipe, PipeK::%s)" % k}, kill=["nopipe"], uses=[("pipe", "pattern")] + [(u, "pipe") for u in uses], sets=["pipe"], needs=needs)


PIPE("p_trim", "TrimPipe{trim_any_of: seq![32i8]}")
PIPE("p_trim_literal", "TrimPipe{trim_any_of: %s}" % LIT, ["literal_value"])
PIPE("p_collapsews", "CollapseWsPipe")
PIPE("p_tolower", "CasePipe{option: 2u32}")
PIPE("p_toupper", "CasePipe{option: 4u32}")
PIPE("p_prepend", "PrependPipe{prefix: %s}" % LIT, ["literal_value"])
PIPE("p_append", "AppendPipe{suffix: %s}" % LIT, ["literal_value"])
PIPE("p_filter", "RegexPipe{regex: %s}" % RX, ["regex"], ["regex"])
PIPE("p_replace", "RegexReplacePipe{regex: %s, replace: %s}" % (RX, LIT), ["regex", "literal_value"], ["regex"])


def TEST(n, t, uses, needs=()):
    A(n, {"pv.test": box("TestV::" + t)}, gen=["test"], kill=["notest"], sets=["test"], uses=[(u, "pattern") for u in uses], needs=needs)


TEST("o_words", "ContainsWordsTest{words: words_of(%s)}" % LIT, ["literal_value"])
TEST("o_equals", "EqualsTest{lit: %s}" % LIT, ["literal_value"])
TEST("o_begins", "BeginsWithTest{lit: %s}" % LIT, ["literal_value"])
TEST("o_contains", "ContainsTest{lit: %s}" % LIT, ["literal_value"])
TEST("o_ends", "EndsWithTest{lit: %s}" % LIT, ["literal_value"])
TEST("o_regex", "RegexTest{rx: %s}" % RX, ["regex"], ["regex"])
TEST("negate", "NegateTest{test: $pv.test}", ["test"])
A("no_test", {"pv.test": "None"}, gen=["notest"], kill=["test"], resets=["test"])
A("add_function_capture", {"stacks": "add_capture(%s, CapV::FunctionCapture{func: $pv.builtin, name: $pv.cap_var, pipe: $pv.pipe})" % ST, "pv.pipe": "None"},
  needs=["open", "builtin"], gen=["nopipe"], uses=[(x, "pattern") for x in ("builtin", "cap_var", "pipe")], resets=["pipe"])
A("add_function_match", {"stacks": "add_match(%s, %s)" % (ST, box("MatchV::FunctionValueMatch{func: $pv.builtin, test: $pv.test}")), "pv.test": "None"},
  needs=["open", "builtin", "test"], gen=["notest"], kill=["test"], uses=[(x, "pattern") for x in ("builtin", "test")], resets=["test"])
A("optional_capture", {"pv.optional": "true"}, sets=["optional"])
A("add_attribute_capture", {"stacks": "{ let s_ = add_capture(%s, CapV::AttributeCapture{attr_name: $pv.attr_name, name: $pv.cap_var, pipe: $pv.pipe}); if $pv.optional { s_ } else { add_match(s_, %s) } }"
  % (ST, box("MatchV::AttributeMatch{attr_name: $pv.attr_name, test: None}")), "pv.pipe": "None"},
  needs=["open"], gen=["nopipe"], uses=[(x, "pattern") for x in ("attr_name", "cap_var", "pipe", "optional")], resets=["pipe"])
A("add_attribute_match", {"stacks": "add_match(%s, %s)" % (ST, box("MatchV::AttributeMatch{attr_name: $pv.attr_name, test: $pv.test}")), "pv.test": "None"},
  needs=["open"], gen=["notest"], kill=["test"], uses=[(x, "pattern") for x in ("attr_name", "test")], resets=["test"])
A("pattern_end", {"pv": "pv_new()"}, needs=["nopipe", "notest", "notrait", "nonegate"], kill=["regex", "test", "trait", "negate", "builtin"], gen=["nopipe", "notest", "notrait", "nonegate"],
  resets=["nth", "builtin", "attr_name", "literal_value", "cap_var", "pipe", "regex", "test", "trait", "negate", "regex_flag", "optional"])

A("open_rule", {"stacks": "nest_push(%s)" % ST}, gen=["open"], props=["C16", "C18"])
A("set_optional", {"stacks": "{ let r_ = open_rule(%s); with_open(%s, RuleV{is_optional: true, ..r_}) }" % (ST, ST)}, needs=["open"])
A("set_greedy", {"stacks": "{ let r_ = open_rule(%s); with_open(%s, RuleV{is_greedy: true, ..r_}) }" % (ST, ST)}, needs=["open"])
A("open_tag", {"stacks": "with_open(%s, tagged(open_rule(%s), %s))" % (ST, ST, TK)}, needs=["open"], end=True, props=["C16", "C18"])
A("close_rule", {"stacks": "nest_pop(%s)" % ST}, needs=["open"], kill=["open"], props=["C16"])
A("close_tag", {"stacks": "nest_pop(%s)" % ST}, kill=["open"], end=True, throws="close_bad(%s, %s)" % (ST, TK), msg="close_msg(%s, %s, %s, %s)" % (TX, POS, ST, TK), props=["C16"])
A("open_nested", {"stacks": "nest_open(%s)" % ST}, kill=["open"], throws=ST + ".last().len() == 0", msg="msg_error(%s, %s, no_parent())" % (TX, POS), props=["C16"])
A("close_nested", {"stacks": "nest_close(%s)" % ST}, kill=["open"], throws="nest_close_err(%s) is Some" % ST, msg="msg_error(%s, %s, nest_close_err(%s)->Some_0)" % (TX, POS, ST), props=["C16"])
A("unexpected", {}, throws="true", msg="msg_unexpected(%s, %s)" % (TX, POS), props=["C17", "C19"])
ACTIONS["unexpected"]["needs"] = ()
CONTRACTS[-1].requires.remove(FACTS["pos"])
