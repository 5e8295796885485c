"""The parser of hext: error reports (C19), nesting (C16), the actions and the driver (C17, C18)."""
from vcgen import Contract, Loop

CONTRACTS = []


def F(*a, **k):
    CONTRACTS.append(Contract(*a, **k))


P = "hext::Parser::"
AT = ["parser_at($this)"]
NORM = ["broadcast use crate::spec::seq_norm;"]
T = "parser_text($this)"
POS = "parser_pos($this)"

F(P + "print_error_location", ["uc", "mark_len", "out"], requires=["cps_ok($this.p_begin, $uc, $this.pe)", "0 <= $mark_len"],
  out={"out": "err_loc($out, %s, $uc.off - $this.p_begin.off, $mark_len)" % T}, props=["C19"],
  exit=['def_err_lines(t_, u_);'], rlimit=120, entry=["let t_ = %s; let u_ = $uc.off - $this.p_begin.off;" % T,
         "assert(cp_text($this.p_begin, $uc) =~= t_.subrange(0, u_));",
         "lemma_where(t_, u_); let ln_ = 1 + line_of_(t_.subrange(0, u_)); let co_ = 1 + col_of_(t_.subrange(0, u_));",
         "assert(wrap_u64((col_of_($uc.buf.subrange($this.p_begin.off, $uc.off)) as i64) as int + 1) == co_ && wrap_u64((line_of_($uc.buf.subrange($this.p_begin.off, $uc.off)) as i64) as int + 1) == ln_);",
         "if u_ < t_.len() { assert($uc.buf[$uc.off] == t_[u_]); assert($uc.buf.subrange($this.p_begin.off, $uc.off + 1) =~= t_.subrange(0, u_ + 1)); }"],
  loops=[Loop(inv=["forall|j: int| 0 <= j < $i - $this.p_begin.off ==> t_[j] >= 0"], head_hints=["if $this.p_begin.off <= $i < $this.pe.off { assert(t_[$i - $this.p_begin.off] == $this.p_begin.buf[$i]); }"])])
F(P + "throw_error_message", ["msg"], requires=AT + [POS + " > 0"], throws="true", thrown="SyntaxError",
  thrown_msg="msg_error(%s, %s, $msg)" % (T, POS), props=["C19"])
F(P + "throw_unexpected", [], requires=AT, throws="true", thrown="SyntaxError", thrown_msg="msg_unexpected(%s, %s)" % (T, POS), props=["C19"],
  entry=["if %s < %s.len() { assert($this.p.buf[$this.p.off] == %s[%s]); }" % (POS, T, T, POS)])
F(P + "throw_missing_tag", ["missing", "name"], requires=AT + ["0 <= $missing <= 512"], throws="true", thrown="SyntaxError",
  thrown_msg="msg_missing_tag(%s, $missing as int, $name)" % T, props=["C19"], entry=["lemma_star();"])
F(P + "throw_unexpected_tag", ["tag", "expected", "name"], requires=AT + [POS + " > 0", "$tag.len() < 0x7fff_fffe", "$expected is Some ==> 0 <= $expected->Some_0 <= 512", "$name is Some ==> $expected is Some"], throws="true", thrown="SyntaxError",
  thrown_msg="msg_unexpected_tag(%s, %s, $tag, $expected, $name)" % (T, POS), props=["C19"], entry=["lemma_star();"])
F(P + "throw_regex_error", ["mark_len", "code"], requires=AT + [POS + " > 0"], throws="true", thrown="SyntaxError",
  thrown_msg="msg_regex(%s, %s, $mark_len as int, $code as int)" % (T, POS), props=["C19"])

# ---- nesting
ST = "$this.stacks"
NEST = ["stacks_ok(%s)" % ST]
NESTED = ["stacks_ok($out.this.stacks)"]
for f in ("cur_rule", "top_stack", "previous_stack"):
    F(P + f, inline=True, props=["C16"])
F(P + "push_rule", requires=NEST, out={"this.stacks": "nest_push(%s)" % ST}, ensures=NESTED, props=["C16"])
F(P + "push_nested", requires=NEST + AT + [POS + " > 0"], out={"this.stacks": "nest_open(%s)" % ST}, ensures=NESTED, props=["C16"],
  throws=ST + ".last().len() == 0", thrown="SyntaxError", thrown_msg="msg_error(%s, %s, no_parent())" % (T, POS))
F(P + "pop_nested", requires=NEST + AT + [POS + " > 0"], out={"this.stacks": "nest_close(%s)" % ST}, ensures=NESTED, props=["C16"],
  throws="nest_close_err(%s) is Some" % ST, thrown="SyntaxError", thrown_msg="msg_error(%s, %s, nest_close_err(%s)->Some_0)" % (T, POS, ST))
F(P + "pop_rule", requires=NEST + [ST + ".last().len() > 0"], out={"this.stacks": "nest_pop(%s)" % ST}, ensures=NESTED, props=["C16"])
F(P + "set_open_tag_or_throw", ["name"], requires=NEST + [ST + ".last().len() > 0", "$name.len() < 0x7fff_fffe"], out={"this.stacks": "with_open(%s, tagged(open_rule(%s), $name))" % (ST, ST)}, ensures=NESTED, props=["C16", "C18"])
F(P + "validate_close_tag_or_throw", ["name"], requires=NEST + AT + [POS + " > 0", "$name.len() < 0x7fff_fffe"], throws="close_bad(%s, $name)" % ST, thrown="SyntaxError",
  thrown_msg="close_msg(%s, %s, %s, $name)" % (T, POS, ST), props=["C16"])

# ---- pending values
PV = "hext::PatternValues::"
F(PV + "PatternValues", ret="pv_new()", props=["C18"])
F(PV + "reset", requires=["$this.pipe is None", "$this.test is None", "$this.trait is None", "$this.negate is None"], out={"this": "pv_new()"}, props=["C18"])

# ---- the whole
CONTRACTS.append(Contract(P + "Parser", ["begin", "end"], requires=["!$begin.null && !$end.null", "$begin.buf == $end.buf", "0 <= $begin.off <= $end.off <= $end.buf.len()"],
  ensures=["$ret.stacks =~= Seq::<Seq<RuleV>>::empty()", "$ret.p_begin == $begin", "$ret.pe == $end", "$ret.eof == $end"], props=["C16", "C17", "C18", "C19"]))
# what a text denotes: the pieces of parse() are under contract one by one (contracts/actions.py, contracts/machine.py)
CONTRACTS.append(Contract(P + "parse", requires=["cps_ok($this.p_begin, $this.p_begin, $this.pe)", "$this.eof == $this.pe"], out={"this": None}, ret="hext_tree(parser_text($this))",
  throws="hext_error(parser_text($this)) is Some", thrown="SyntaxError", thrown_msg="hext_error(parser_text($this))->Some_0",
  assumed="the pieces of Parser::parse compose to one total function of the text", props=["C16", "C17", "C18", "C19"]))
for v, params, sig, text, req in (("cstr", ["hext"], r"\(const char \*\)", "cstr($hext)", ["!$hext.null", "$hext.buf.len() < 0x7fff_fffe"]),
                                  ("size", ["hext", "size"], r"\(const char \*, (std::)?size_t\)", "piece($hext, $size)", ["!$hext.null", "piece_ok($hext, $size)", "$hext.buf.len() < 0x7fff_fffe"])):
    F("hext::ParseHext", params, sig=sig, variant=v, requires=req, ret="hext_tree(%s)" % text, throws="hext_error(%s) is Some" % text, thrown="SyntaxError", thrown_msg="hext_error(%s)->Some_0" % text,
      props=["C16", "C17", "C18", "C19"], entry=["assert(piece($hext, cstr($hext).len() as int) =~= cstr($hext));"] if v == "cstr" else ["assert(0 <= $hext.off && $hext.off + $size <= $hext.buf.len());"])
