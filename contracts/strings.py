"""StringUtil.cpp and the value tests (C08, C09)."""
from vcgen import Contract, Loop

CONTRACTS = []


def F(*a, **k):
    CONTRACTS.append(Contract(*a, **k))


F("hext::IsSpace", ["c"], ret="is_ws($c)", props=["C09"])

F("hext::TrimAndCollapseWs", ["str"], ret="collapse($str)", props=["C09", "C10", "C13"],
  entry=["assert($str.subrange(0, 0) =~= Seq::<i8>::empty());"],
  loops=[Loop(
      roles=[("str", "str"), ("c", "int"), ("end", "int"), ("need_space", "bool")],
      inv=["$str.len() == $init_str.len()", "0 <= $c && $c <= $str.len()", "0 <= $end && $end + (if $need_space {1int} else {0}) <= $c",
           "$str.subrange(0, $end) =~= cw_out($init_str.subrange(0, $c))", "$need_space == cw_pend($init_str.subrange(0, $c))",
           "$need_space ==> $end > 0",
           "forall|j: int| $c <= j < $str.len() ==> $str[j] == #[trigger] $init_str[j]"],
      decr="$str.len() - $c",
      hints=["assert($init_str.subrange(0, $c).drop_last() =~= $init_str.subrange(0, $old_c));",
             "assert($init_str.subrange(0, $c).last() == $init_str[$old_c]);"],
      exit_hints=["assert($init_str.subrange(0, $c) =~= $init_str);"])],
  # the same, building the result apart from the argument
  alts=[[Loop(roles=[("out", "str"), ("c", "int"), ("need_space", "bool")],
              inv=["0 <= $c && $c <= $str.len()", "$out =~= cw_out($str.subrange(0, $c))", "$need_space == cw_pend($str.subrange(0, $c))"],
              decr="$str.len() - $c",
              hints=["assert($str.subrange(0, $c).drop_last() =~= $str.subrange(0, $old_c)); assert($str.subrange(0, $c).last() == $str[$old_c]);"],
              exit_hints=["assert($str.subrange(0, $c) =~= $str);"])],
        [Loop(roles=[("out", "str"), ("need_space", "bool")],
              inv=["$out =~= cw_out($str.subrange(0, $i as int))", "$need_space == cw_pend($str.subrange(0, $i as int))"],
              hints=["assert($str.subrange(0, $i as int).drop_last() =~= $str.subrange(0, $old_i as int)); assert($str.subrange(0, $i as int).last() == $str[$old_i as int]);"],
              exit_hints=["assert($str.subrange(0, $str.len() as int) =~= $str);"])]])

F("hext::ContainsWord", ["subject", "word"], ret="contains_word($subject, $word)", props=["C08"],
  loops=[Loop(roles=[("begin", "int")],
              inv=["0 <= $begin && $begin <= $subject.len()", "0 < $word.len() && $word.len() <= $subject.len()",
                   "forall|j: int| 0 <= j < $begin ==> !word_at($subject, $word, j)"],
              decr="$subject.len() - $begin")],
  # the same, with the next occurrence found before the head of the loop (npos at its end)
  alts=[[Loop(roles=[("begin", "int")],
              inv=["0 < $word.len() && $word.len() <= $subject.len() && $subject.len() <= 0x7fff_ffff_ffff_ffff", "0 <= $begin",
                   "$begin == 0xffff_ffff_ffff_ffff || at_pos($subject, $word, $begin)",
                   "forall|j: int| 0 <= j < $begin ==> !word_at($subject, $word, j)"],
              decr="0x1_0000_0000_0000_0000 - $begin", head_hints=["lemma_word_at($subject, $word, $begin);"])]])

F("hext::DecimalWidth", ["number"], ret="dec_nat($number).len() as int", props=["C19"],
  loops=[Loop(roles=[("number", "int"), ("width", "int")],
              inv=["0 <= $number", "$width >= 1", "$width + dec_nat($number).len() == 1 + dec_nat($init_number).len()", "dec_nat($number).len() >= 1", "dec_nat($init_number).len() <= 20"],
              decr="$number", entry_hints=["lemma_dec_len($init_number, 20);"], head_hints=["lemma_dec_len($number, 20);"])],
  # the same, dividing after counting
  alts=[[Loop(roles=[("number", "int"), ("width", "int")],
              inv=["0 <= $number", "$width >= 0", "$width + dec_nat($number).len() == dec_nat($init_number).len()", "dec_nat($init_number).len() <= 20"],
              decr="$number", entry_hints=["lemma_dec_len($init_number, 20);"], head_hints=["lemma_dec_len($number, 20);"])]])

F("hext::CharName", ["c"], ret="char_name($c as int)", props=["C19"])

F("hext::CharPosition", ["begin", "c"], props=["C19"],
  requires=["!$begin.null && !$c.null", "$begin.buf =~= $c.buf", "0 <= $begin.off && $begin.off <= $c.off && $c.off <= $c.buf.len()",
            "$c.buf.len() < 0x7fff_ffff_ffff_ffff"],
  ret="(line_of_($c.buf.subrange($begin.off, $c.off)) as i64, col_of_($c.buf.subrange($begin.off, $c.off)) as i64)",
  exit=["lemma_col($c.buf.subrange($begin.off, $c.off));"],
  # counting lines and columns in one pass
  # counting lines and columns in one pass (the walking pointer is $begin.buf at offset $pos)
  alts=[[Loop(roles=[("pos", "int"), ("line", "int"), ("column", "int")],
              inv=["$begin.off <= $pos && $pos <= $c.off",
                   "$line == line_of_($c.buf.subrange($begin.off, $pos))", "$column == col_of_($c.buf.subrange($begin.off, $pos))",
                   "0 <= $line && $line <= $pos - $begin.off", "0 <= $column && $column <= $pos - $begin.off"],
              decr="$c.off - $pos",
              entry_hints=["assert($c.buf.subrange($begin.off, $begin.off) =~= Seq::<i8>::empty());"],
              hints=["assert($c.buf.subrange($begin.off, $pos).drop_last() =~= $c.buf.subrange($begin.off, $old_pos)); assert($c.buf.subrange($begin.off, $pos).last() == $c.buf[$old_pos]);"])]])

F("hext::PrintNumberedLines", ["begin", "end", "out"], props=["C19"],
  requires=["!$begin.null && !$end.null", "$begin.buf =~= $end.buf", "0 <= $begin.off && $begin.off <= $end.off && $end.off <= $end.buf.len()",
            "$end.buf.len() < 0x7fff_fffe"],
  out={"out": "$out + numbered(cp_text($begin, $end))"},
  entry=["lemma_lines(cp_text($begin, $end));"],
  loops=[Loop(roles=[("line_num", "int"), ("out", "str")],
              inv=["$line_num == $i + 1", "$i <= $range.len()", "$range.len() <= 0x7fff_fffe", "$out == $init_out + num_lines($range, $i, dec_nat($range.len() as int).len() as int)"],
              exit_hints=["assert($out == $init_out + numbered(cp_text($begin, $end)));"])],
  # the same, counting lines from zero
  alts=[[Loop(roles=[("line_num", "int"), ("out", "str")],
              inv=["$line_num == $i", "$i <= $range.len()", "$range.len() <= 0x7fff_fffe", "$out == $init_out + num_lines($range, $i, dec_nat($range.len() as int).len() as int)"],
              exit_hints=["assert($out == $init_out + numbered(cp_text($begin, $end)));"])]])

# ---- value tests
LIT = dict(props=["C08"], overrides="ValueTest")
for cls in ("EqualsTest", "BeginsWithTest", "EndsWithTest", "ContainsTest", "RegexTest"):
    e = {"EndsWithTest": ["let s = cstr($subject); let l = $this.lit;",
                          "if l.len() <= s.len() { if rev(l) =~= rev(s).subrange(0, l.len() as int) { assert forall|i: int| 0 <= i < l.len() implies l[i] == s.subrange(s.len() - l.len(), s.len() as int)[i] by { assert(rev(l)[l.len() - 1 - i] == l[i]); } } else if s.subrange(s.len() - l.len(), s.len() as int) =~= l { assert forall|i: int| 0 <= i < l.len() implies rev(l)[i] == rev(s).subrange(0, l.len() as int)[i] by { assert(l[l.len() - 1 - i] == s.subrange(s.len() - l.len(), s.len() as int)[l.len() - 1 - i]); } assert(rev(l) =~= rev(s).subrange(0, l.len() as int)); } }"],
         }.get(cls, [])
    F("hext::%s::test" % cls, ["subject"], ret="test_holds($this, subj($subject))", exit=e, **LIT)
F("hext::ContainsWordsTest::test", ["subject"], ret="test_holds($this, subj($subject))",
  loops=[Loop(inv=["$this.words.len() > 0 && !$subject.null", "forall|j: int| 0 <= j < $i ==> contains_word(cstr($subject), #[trigger] $this.words[j])"])],
  alts=[[Loop(roles=[("flag", "bool")], inv=["$this.words.len() > 0 && !$subject.null", "$flag == %s(forall|j: int| 0 <= j < $i ==> contains_word(cstr($subject), #[trigger] $this.words[j]))" % neg])] for neg in ("", "!")], **LIT)
F("hext::NegateTest::test", ["subject"], ret="test_holds($this, subj($subject))", decr=["0int"], **LIT)
