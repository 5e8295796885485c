"""The driver of the generated machine in Parser::parse, cut at its labels (C16-C20).

Every step of the machine: the transition of the current state for the current character is looked up in the tables,
the state becomes its target, the actions listed for it are performed in order, the text advances by one character;
at the end of the text the end actions of the state are performed.  `$ghost_trace` is the list of actions performed
since the piece began.  The pieces compose at the labels: each ends only where the next one's `requires` holds."""
from vcgen import Contract, Loop

P = "hext::Parser::parse/driver:"
CONTRACTS = []
ST = "$this.stacks"
BASE = ["tables_ok()", "parser_at($this)", "stacks_ok(%s)" % ST]
STATE = "0 < $this.cs < tab_key_offsets().len()"
CH = "($this.p.buf[$this.p.off] as int)"
RESUME = BASE + ["$this.p.off < $this.pe.off", STATE]
FIRST = "parser_pos($this) == 0 ==> $this.cs == tab_start() && %s.len() == 2" % ST
MATCH = RESUME + ["is_trans($this.cs as int, %s, $_trans as int)" % CH]
AGAIN = BASE + ["$this.p.off < $this.pe.off", STATE]
EOF = BASE + [STATE, "$this.p.off == $this.pe.off", FIRST]
OUT = BASE + ["parser_pos($this) == 0 ==> %s.len() == 2" % ST]
LABELS = {"_resume": RESUME, "_match": MATCH, "_again": AGAIN, "_test_eof": EOF, "_out": OUT}


def seg(name, requires, ends, loops=(), entry=(), out=None, end_hints=None, **k):
    """ends: label -> what holds there besides the label's own condition"""
    c = Contract(P + name, requires=requires, loops=list(loops), entry=list(entry), out=dict(out or {}), props=k.pop("props", ["C16", "C17", "C18", "C19"]), **k)
    c.segment = name
    c.end_hints = end_hints or {}
    c.ends = ends
    CONTRACTS.append(c)


SAME = ["$out.this == $this"]
S, KB, NS, NR = "($this.cs as int)", "key_base($this.cs as int)", "n_single($this.cs as int)", "n_range($this.cs as int)"
K = "tab_trans_keys()"
C = CH
SMALL = "assert(forall|x: int| 0 <= x < 0x8000_0000 ==> #[trigger] wrap_u32(x) == x);"
END = ["let t_ = %s - idx_base(%s);" % ("$out._trans as int", S), "if 0 <= t_ < %s { lemma_key_single(%s, %s, %s + t_); }" % (NS, S, C, KB),
       "let m_ = %s + %s + 2 * (t_ - %s); if 0 <= t_ - %s < %s { lemma_key_range(%s, %s, m_); }" % (KB, NS, NS, NS, NR, S, C)]
single = Loop(hints=["lemma_key_single(%s, %s, $_mid.off);" % (S, C)], decr=["$_upper.off - $_lower.off + 1"],
              inv=["%s <= $_lower.off" % KB, "$_upper.off <= %s + %s - 1" % (KB, NS), "$_lower.off <= $_upper.off + 1",
                   "forall|i: int| #[trigger] single_hit(%s, %s, i) ==> $_lower.off <= %s + i <= $_upper.off" % (S, C, KB)])
RB = "(%s + %s)" % (KB, NS)
ranges = Loop(hints=["lemma_key_range(%s, %s, $_mid.off);" % (S, C)], decr=["$_upper.off - $_lower.off + 2"],
              inv=["%s <= $_lower.off" % RB, "$_upper.off <= %s + 2 * %s - 2" % (RB, NR), "$_lower.off <= $_upper.off + 2",
                   "($_lower.off - %s) %% 2 == 0 && ($_upper.off - %s) %% 2 == 0" % (RB, RB),
                   "forall|i: int| #[trigger] range_hit(%s, %s, i) ==> $_lower.off <= %s + 2 * i <= $_upper.off" % (S, C, RB)])
seg("_resume", RESUME, {"_match": SAME}, loops=[single, ranges], end_hints={"_match": END}, entry=["assert(state_ok(%s));" % S, SMALL], rlimit=60)

LIST = "trans_acts(trans_of($_trans as int))"


def actions(at, lst):
    return Loop(decr=["$_nacts as int"] if False else ["%s.len() - $ghost_trace.len()" % lst],
                inv=["$ghost_trace.len() <= %s.len()" % lst, "$ghost_trace =~= %s.subrange(0, $ghost_trace.len() as int)" % lst,
                     "$NACTS as int == %s.len() - $ghost_trace.len()" % lst, "$ACTS.off == %s + 1 + $ghost_trace.len()" % at,
                     "forall|i: int| 0 <= i < $ghost_trace.len() ==> !act_error(#[trigger] $ghost_trace[i])",
                     "$ghost_trace.len() == 0 ==> $cur.stacks == $this.stacks", "parser_at($cur)", "stacks_ok($cur.stacks)"])


def named(l, **m):
    for a, b in m.items():
        l.inv = [x.replace("$" + a, "$" + b) for x in l.inv]
        l.decr = [x.replace("$" + a, "$" + b) for x in l.decr]
    return l


seg("_match", MATCH, {"_again": ["$out.this.cs as int == tab_trans_targs()[trans_of($_trans as int)] as int", "$out.ghost_trace =~= " + LIST]},
    loops=[named(actions("(tab_trans_actions()[trans_of($_trans as int)] as int)", LIST), NACTS="_nacts", ACTS="_acts")],
    entry=["lemma_trans(%s, %s, $_trans as int);" % (S, C)], out={"cs": None})
seg("_again", AGAIN, {"_resume": ["$out.this.p.off == $this.p.off + 1"], "_test_eof": ["$out.this.p.off == $this.p.off + 1"]}, out={"p": None})
EL = "acts_at(tab_eof_actions()[$this.cs as int] as int)"
seg("_test_eof", EOF, {"_out": ["$out.ghost_trace =~= " + EL]}, entry=["assert(state_ok(%s));" % S],
    loops=[named(actions("(tab_eof_actions()[$this.cs as int] as int)", EL), NACTS="__nacts", ACTS="__acts")])
START = ["tables_ok()", "cps_ok($this.p_begin, $this.p_begin, $this.pe)", "$this.eof == $this.pe"]
seg("start", START, {x: ["$out.this.cs as int == tab_start()", "$out.this.stacks =~= seq![Seq::<RuleV>::empty(), Seq::<RuleV>::empty()]", "$out.pv == pv_new()", "parser_pos($out.this) == 0"] for x in ("_resume", "_test_eof")},
    out={"cs": None, "stacks": None, "p": None})
seg("_out", OUT, {}, out={"stacks": None}, ret="end_rule(%s)" % ST, throws="parse_fails(%s)" % ST, thrown="SyntaxError",
    thrown_msg="end_msg(parser_text($this), parser_pos($this), %s)" % ST,
    loops=[Loop(decr=["$cur.stacks.len()"], inv=["$cur.stacks =~= %s.subrange(0, $cur.stacks.len() as int)" % ST, "$cur.stacks.len() <= 2",
                     "forall|i: int| $cur.stacks.len() <= i < %s.len() ==> (#[trigger] %s[i]).len() == 0" % (ST, ST)])])
