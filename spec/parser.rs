// ---------------------------------------------------------------- the parser of hext (C16-C19)
pub struct ParserV { pub stacks: Seq<Seq<RuleV>>, pub p_begin: CP, pub p: CP, pub pe: CP, pub eof: CP, pub cs: i32 }
pub struct PvV { pub nth: (i32, i32), pub builtin: FnV, pub attr_name: Str, pub literal_value: Str, pub cap_var: Str,
    pub pipe: Option<Box<PipeV>>, pub regex: Option<RxV>, pub test: Option<Box<TestV>>, pub trait_: Option<Box<MatchV>>,
    pub negate: Option<Box<MatchV>>, pub regex_flag: u32, pub optional: bool }

/// the text between two pointers into the same buffer
pub open spec fn cp_text(a: CP, b: CP) -> Str { a.buf.subrange(a.off, b.off) }
pub open spec fn cps_ok(b: CP, p: CP, e: CP) -> bool
{ !b.null && !p.null && !e.null && b.buf == e.buf && p.buf == e.buf && 0 <= b.off <= p.off && p.off <= e.off && e.off <= e.buf.len() && e.buf.len() < 0x7fff_fffe }
pub open spec fn parser_at(s: ParserV) -> bool { cps_ok(s.p_begin, s.p, s.pe) && s.eof == s.pe }
pub open spec fn parser_text(s: ParserV) -> Str { cp_text(s.p_begin, s.pe) }
pub open spec fn parser_pos(s: ParserV) -> int { s.p.off - s.p_begin.off }

// ---- where and how an error is shown
pub open spec fn num_lines(ls: Seq<Str>, i: int, w: int) -> Str decreases i
{ if i <= 0 { Seq::empty() } else { num_lines(ls, i - 1, w) + pad_left(dec(i), w) + S!(": ") + ls[i - 1] + S!("\n") } }
/// the lines of a text, each with its number, the numbers aligned to the right
pub open spec fn numbered(t: Str) -> Str { let ls = split_keep(t, S!("\n")); num_lines(ls, ls.len() as int, dec_nat(ls.len() as int).len() as int) }
/// the beginning of the report of an error at position uc of text t, written after o
pub open spec fn err_at(o: Str, t: Str, uc: int) -> Str
{ if uc == t.len() { o + S!("at end of input:\n\n") } else { o + S!("at line ") + dec(1 + line_of_(t.subrange(0, uc))) + S!(", char ") + dec(1 + col_of_(t.subrange(0, uc))) + S!(":\n\n") } }
#[verifier::opaque]
pub open spec fn err_lines(t: Str, uc: int) -> Str { numbered(t.subrange(0, if uc == t.len() || t[uc] == 10 { uc } else { uc + 1 })) }
pub open spec fn ascii_only(t: Str) -> bool { forall|j: int| 0 <= j < t.len() ==> t[j] >= 0 }
/// the whole report, with a marker of the given length that ends below the position, written after o
pub open spec fn err_loc(o: Str, t: Str, uc: int, mark: int) -> Str {
    let line = 1 + line_of_(t.subrange(0, uc));
    let col = 1 + col_of_(t.subrange(0, uc));
    let m = min(col, mark);
    let b = err_at(o, t, uc) + err_lines(t, uc);
    if mark < 1 || !ascii_only(t) { b } else { b + blanks(dec_nat(line).len() + 2 + col - m, 32) + blanks(m, 94) + S!(" here\n") }
}
pub open spec fn char_name(c: int) -> Str {
    if c == 10 { S!("[newline]") } else if c == 9 { S!("[tab]") } else if c == 13 { S!("[carriage-return]") } else if c == 32 { S!("[space]") }
    else if c == 0 { S!("[nullbyte]") } else if 33 <= c <= 126 { seq![c as i8] } else { S!("[ascii: ") + dec(c) + S!("]") }
}
pub open spec fn msg_unexpected(t: Str, p: int) -> Str
{ err_loc(if p == t.len() { S!("Premature termination ") } else { S!("Unexpected character '") + char_name(t[p] as int) + S!("' ") }, t, p, 1) }
pub open spec fn msg_error(t: Str, p: int, what: Str) -> Str { err_loc(what + S!(" "), t, p - 1, 1) }
pub open spec fn tag_text(tag: int, tagname: Option<Str>) -> Str { match tagname { Some(n) => n, None => if tag == HTMLTAG_ANY() { S!("*") } else { cstr(normalized_tagname(tag)) } } }
pub open spec fn msg_missing_tag(t: Str, tag: int, tagname: Option<Str>) -> Str
{ err_loc(S!("Missing closing tag '</") + tag_text(tag, tagname) + S!(">' "), t, t.len() as int, 0) }
pub open spec fn msg_unexpected_tag(t: Str, p: int, given: Str, expected: Option<i32>, tagname: Option<Str>) -> Str {
    let a = S!("Unexpected closing tag '</") + given + S!(">'");
    let b = if tagname is Some || expected is Some { a + S!(", expected '</") + tag_text(if expected is Some { expected->Some_0 as int } else { 0 }, tagname) + S!(">'") } else { a };
    err_loc(b + S!(" "), t, p - 1, given.len() as int + 2)
}
pub open spec fn msg_regex(t: Str, p: int, mark: int, code: int) -> Str { err_loc(S!("In regular expression "), t, p - 1, mark) + S!("\nError: ") + rx_error_text(code) }
pub uninterp spec fn rx_error_text(code: int) -> Str;
pub uninterp spec fn rx_error_code(s: Str, flags: int) -> int;
pub proof fn lemma_lines(s: Str) ensures split_keep(s, S!("\n")).len() == 1 + s_count(s, 10), s_count(s, 10) >= 0 decreases s.len()
{
    broadcast use string_facts;
    if s.len() > 0 {
        lemma_lines(s.drop_last()); lemma_split_keep(s.drop_last(), S!("\n"));
        let d = S!("\n");
        assert(d[0] == 10);
        assert(d.contains(s.last()) <==> s.last() == 10);
    }
}
/// output written in a different grouping is the same output
pub broadcast proof fn seq_assoc(a: Str, b: Str, c: Str) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn seq_push(a: Str, x: i8) ensures #[trigger] a.push(x) == a + seq![x] { assert(a.push(x) =~= a + seq![x]); }
pub broadcast proof fn seq_nil(a: Str) ensures #[trigger] (a + Seq::<i8>::empty()) == a { assert(a + Seq::<i8>::empty() =~= a); }
pub broadcast group seq_norm { seq_assoc, seq_push, seq_nil }
pub proof fn lemma_star() ensures cstr(CP{null: false, buf: S!("*").push(0i8), off: 0}) == S!("*") { broadcast use string_facts; assert(cstr(CP{null: false, buf: S!("*").push(0i8), off: 0}) =~= S!("*")) by { reveal_with_fuel(index_of_nul, 4); let b = S!("*").push(0i8); assert(b.subrange(0, b.len() as int) =~= b); } }
pub proof fn lemma_where(t: Str, u: int)
    requires 0 <= u <= t.len() < 0x7fff_fffe
    ensures 0 <= line_of_(t.subrange(0, u)) <= u, 0 <= col_of_(t.subrange(0, u)) <= u, 1 <= dec_nat(1 + line_of_(t.subrange(0, u))).len() <= 20
{
    let s = t.subrange(0, u);
    lemma_col(s); lemma_lines(s); lemma_split_keep(s, S!("\n")); lemma_dec_len(1 + line_of_(s), 20);
}

// ---- open rules: per brace level a list of finished rules (at most one, siblings chained) and the path of open rules
pub type Stacks = Seq<Seq<RuleV>>;
pub open spec fn new_rule() -> RuleV
{ RuleV{first_child: None, next: None, nested: Seq::empty(), matches: Seq::empty(), captures: Seq::empty(), tag: HTMLTAG_ANY() as i32, is_optional: false, is_greedy: false, tagname: None} }
/// the shape of the stacks between two constructs
pub open spec fn stacks_ok(s: Stacks) -> bool {
    &&& s.len() >= 2 && s.len() % 2 == 0
    &&& forall|i: int| 0 <= i < s.len() && i % 2 == 0 ==> (#[trigger] s[i]).len() <= 1
    &&& forall|i: int| 0 <= i < s.len() - 1 && i % 2 == 1 ==> (#[trigger] s[i]).len() >= 1
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].len() ==> rule_tag_ok(#[trigger] s[i][j])
}
/// a rule of an unknown tag has the tag's name
pub open spec fn rule_tag_ok(r: RuleV) -> bool { 0 <= r.tag <= 512 && (r.tag == HTMLTAG_UNKNOWN() ==> r.tagname is Some) }
pub open spec fn set_last<A>(s: Seq<A>, x: A) -> Seq<A> { s.drop_last().push(x) }
/// the rule being written
pub open spec fn open_rule(s: Stacks) -> RuleV { s.last().last() }
pub open spec fn with_open(s: Stacks, r: RuleV) -> Stacks { set_last(s, set_last(s.last(), r)) }
/// "<": a rule is opened
pub open spec fn nest_push(s: Stacks) -> Stacks { set_last(s, s.last().push(new_rule())) }
/// "{": a level is opened inside the open rule
pub open spec fn nest_open(s: Stacks) -> Stacks { s.push(Seq::empty()).push(Seq::empty()) }
/// end of a rule: it becomes the last child of the rule around it, or follows the finished rules of its level
pub open spec fn nest_pop(s: Stacks) -> Stacks {
    let n = s.len() as int; let w = s.last(); let r = w.last();
    if w.len() > 1 { set_last(s, set_last(w.drop_last(), rule_append_child(w[w.len() - 2], r))) }
    else { let f = s[n - 2]; s.subrange(0, n - 2).push(if f.len() == 0 { seq![r] } else { set_last(f, rule_append_next(f.last(), r)) }).push(Seq::empty()) }
}
/// "}": the finished rules of the level become nested rules of the rule that is open around it
pub open spec fn nest_close_err(s: Stacks) -> Option<Str> {
    if s.last().len() > 0 { Some(S!("Closing nested rule without open")) }
    else if s[s.len() - 2].len() == 0 { Some(S!("Nested rules cannot be empty")) }
    else if s.len() == 2 { Some(S!("Closing nested rule without open")) }
    else { None }
}
pub open spec fn nest_close(s: Stacks) -> Stacks {
    let n = s.len() as int; let b = s.subrange(0, n - 2); let r = open_rule(b);
    with_open(b, RuleV{nested: r.nested.push(s[n - 2].last()), ..r})
}
pub open spec fn is_star(name: Str) -> bool { name.len() == 1 && name[0] == 42 }
/// the tag of a rule, from its name as written
pub open spec fn tagged(r: RuleV, name: Str) -> RuleV {
    if is_star(name) { RuleV{tag: HTMLTAG_ANY() as i32, ..r} }
    else if rule_tag_of(name) == HTMLTAG_UNKNOWN() { RuleV{tag: HTMLTAG_UNKNOWN() as i32, tagname: Some(name), ..r} }
    else { RuleV{tag: rule_tag_of(name) as i32, ..r} }
}
/// a closing tag that does not name the open rule
pub open spec fn close_bad(s: Stacks, name: Str) -> bool {
    let r = open_rule(s);
    s.last().len() == 0 ||
    if r.tag == HTMLTAG_UNKNOWN() { r.tagname != Some(name) }
    else if is_star(name) { r.tag != HTMLTAG_ANY() }
    else { rule_tag_of(name) == HTMLTAG_UNKNOWN() || rule_tag_of(name) != r.tag }
}
pub open spec fn close_msg(t: Str, p: int, s: Stacks, name: Str) -> Str {
    let r = open_rule(s);
    if s.last().len() == 0 { msg_unexpected_tag(t, p, name, None, None) }
    else { msg_unexpected_tag(t, p, name, Some(r.tag), if r.tag == HTMLTAG_UNKNOWN() { r.tagname } else { None }) }
}
pub open spec fn no_parent() -> Str { S!("Nested rules must have a parent") }

// ---- numbers as written
pub open spec fn is_digit_c(c: i8) -> bool { 48 <= c <= 57 }
/// an optional sign, then digits
pub open spec fn num_shape(s: Str) -> bool
{ let a = if s.len() > 0 && (s[0] == 45 || s[0] == 43) { 1int } else { 0 }; s.len() > a && forall|i: int| a <= i < s.len() ==> is_digit_c(#[trigger] s[i]) }
pub open spec fn nat_of(s: Str) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * nat_of(s.drop_last()) + (s.last() - 48) } }
pub open spec fn num_of(s: Str) -> int
{ if s.len() > 0 && s[0] == 45 { -nat_of(s.subrange(1, s.len() as int)) } else if s.len() > 0 && s[0] == 43 { nat_of(s.subrange(1, s.len() as int)) } else { nat_of(s) } }
pub open spec fn fits_int(s: Str) -> bool { -0x8000_0000 <= num_of(s) <= 0x7fff_ffff }
/// std::stoi on texts of that shape (other texts: not modelled, stoi_ok is then unknown)
pub uninterp spec fn stoi_other(s: Str) -> bool;
pub open spec fn stoi_ok(s: Str) -> bool { num_shape(s) || stoi_other(s) }
pub open spec fn stoi_fits(s: Str) -> bool { fits_int(s) }
pub open spec fn stoi_val(s: Str) -> int { num_of(s) }
pub open spec fn num_range() -> Str { S!("Number out of range") }

// ---- pending values of the construct being read
pub open spec fn pv_new() -> PvV
{ PvV{nth: (0, 0), builtin: FnV::Null, attr_name: Seq::empty(), literal_value: Seq::empty(), cap_var: Seq::empty(), pipe: None, regex: None, test: None, trait_: None, negate: None, regex_flag: 0, optional: false} }
pub open spec fn add_pipe(p: Option<Box<PipeV>>, k: PipeK) -> Option<Box<PipeV>>
{ let n = PipeV{k: k, next: None}; match p { None => Some(Box::new(n)), Some(b) => Some(Box::new(pipe_append(*b, Some(Box::new(n))))) } }
pub open spec fn add_match(s: Stacks, m: Option<Box<MatchV>>) -> Stacks { let r = open_rule(s); with_open(s, RuleV{matches: r.matches.push(m), ..r}) }
pub open spec fn add_capture(s: Stacks, c: CapV) -> Stacks { let r = open_rule(s); with_open(s, RuleV{captures: r.captures.push(Some(Box::new(c))), ..r}) }
pub open spec fn flag_or(a: int, b: int) -> int { bitor_u32(a, b) }
pub open spec fn negated(m: Option<Box<MatchV>>, t: Option<Box<MatchV>>) -> Option<Box<MatchV>>
{ Some(Box::new(MatchV::NegateMatch{matches: (*m->Some_0)->NegateMatch_matches.push(t)})) }
pub open spec fn is_negate(m: Option<Box<MatchV>>) -> bool { m is Some && (*m->Some_0) is NegateMatch }
/// the current token lies before the current character
pub open spec fn tok_ok(s: ParserV, tb: CP) -> bool { !tb.null && tb.buf == s.p.buf && s.p_begin.off <= tb.off <= s.p.off }
pub open spec fn all_digits(s: Str) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit_c(#[trigger] s[i]) }
pub proof fn lemma_nat(s: Str) requires forall|i: int| 0 <= i < s.len() ==> is_digit_c(#[trigger] s[i]) ensures nat_of(s) >= 0 decreases s.len()
{ if s.len() > 0 { assert(is_digit_c(s[s.len() - 1])); assert forall|i: int| 0 <= i < s.drop_last().len() implies is_digit_c(#[trigger] s.drop_last()[i]) by { assert(is_digit_c(s[i])); } lemma_nat(s.drop_last()); } }
pub proof fn lemma_digits(s: Str) ensures all_digits(s) ==> num_shape(s) && num_of(s) == nat_of(s) && num_of(s) >= 0 { if all_digits(s) { assert(is_digit_c(s[0])); lemma_nat(s); } }

// ---- the tables of the generated machine; their values are read from the source on every run (cppvc/ragel.py), which evaluates tables_ok
pub uninterp spec fn tab_actions() -> Seq<i8>;
pub uninterp spec fn tab_key_offsets() -> Seq<i16>;
pub uninterp spec fn tab_trans_keys() -> Seq<i8>;
pub uninterp spec fn tab_single_lengths() -> Seq<i8>;
pub uninterp spec fn tab_range_lengths() -> Seq<i8>;
pub uninterp spec fn tab_index_offsets() -> Seq<i16>;
pub uninterp spec fn tab_indicies() -> Seq<i16>;
pub uninterp spec fn tab_trans_targs() -> Seq<i16>;
pub uninterp spec fn tab_trans_actions() -> Seq<i16>;
pub uninterp spec fn tab_eof_actions() -> Seq<i16>;
pub uninterp spec fn tab_start() -> int;
/// an action that always throws
pub uninterp spec fn act_error(k: int) -> bool;
pub open spec fn key_base(s: int) -> int { tab_key_offsets()[s] as int }
pub open spec fn n_single(s: int) -> int { tab_single_lengths()[s] as int }
pub open spec fn n_range(s: int) -> int { tab_range_lengths()[s] as int }
pub open spec fn idx_base(s: int) -> int { tab_index_offsets()[s] as int }
/// the actions listed at position a
pub open spec fn acts_at(a: int) -> Seq<int> { Seq::new(tab_actions()[a] as nat, |i: int| tab_actions()[a + 1 + i] as int) }
pub open spec fn acts_in(a: int) -> bool { 0 <= a < tab_actions().len() && tab_actions()[a] >= 0 && a + tab_actions()[a] < tab_actions().len() }
pub open spec fn trans_acts(t: int) -> Seq<int> { if tab_trans_actions()[t] == 0 { Seq::empty() } else { acts_at(tab_trans_actions()[t] as int) } }
pub open spec fn has_error(l: Seq<int>) -> bool { exists|i: int| 0 <= i < l.len() && act_error(#[trigger] l[i]) }
pub open spec fn state_ok(s: int) -> bool {
    &&& 0 <= key_base(s) && 0 <= n_single(s) && 0 <= n_range(s) && key_base(s) + n_single(s) + 2 * n_range(s) <= tab_trans_keys().len()
    &&& 0 <= idx_base(s) && idx_base(s) + n_single(s) + n_range(s) < tab_indicies().len()
    &&& forall|i: int, j: int| 0 <= i < j < n_single(s) ==> #[trigger] tab_trans_keys()[key_base(s) + i] < #[trigger] tab_trans_keys()[key_base(s) + j]
    &&& forall|i: int| 0 <= i < n_range(s) ==> #[trigger] range_lo(s, i) <= range_hi(s, i)
    &&& forall|i: int, j: int| 0 <= i < j < n_range(s) ==> #[trigger] range_hi(s, i) < #[trigger] range_lo(s, j)
    &&& acts_in(tab_eof_actions()[s] as int)
}
pub open spec fn range_lo(s: int, i: int) -> int { tab_trans_keys()[key_base(s) + n_single(s) + 2 * i] as int }
pub open spec fn range_hi(s: int, i: int) -> int { tab_trans_keys()[key_base(s) + n_single(s) + 2 * i + 1] as int }
pub open spec fn trans_ok(t: int) -> bool {
    &&& 0 <= tab_trans_targs()[t] < tab_key_offsets().len()
    &&& 0 <= tab_trans_actions()[t] && (tab_trans_actions()[t] > 0 ==> acts_in(tab_trans_actions()[t] as int))
    &&& tab_trans_targs()[t] == 0 ==> has_error(trans_acts(t))
}
pub open spec fn tables_ok() -> bool {
    let n = tab_key_offsets().len();
    &&& tab_single_lengths().len() >= n && tab_range_lengths().len() >= n && tab_index_offsets().len() >= n && tab_eof_actions().len() >= n
    &&& 0 < tab_start() < n && n < 0x7fff && tab_actions().len() < 0x7fff && tab_indicies().len() < 0x7fff && tab_trans_keys().len() < 0x7fff
    &&& tab_trans_actions().len() >= tab_trans_targs().len() && tab_trans_targs().len() < 0x7fff
    &&& tab_trans_keys().len() >= 1
    &&& forall|s: int| 0 <= s < n ==> #[trigger] state_ok(s)
    &&& forall|i: int| 0 <= i < tab_indicies().len() ==> 0 <= #[trigger] tab_indicies()[i] < tab_trans_targs().len()
    &&& forall|t: int| 0 <= t < tab_trans_targs().len() ==> #[trigger] trans_ok(t)
    &&& tab_actions()[tab_eof_actions()[tab_start()] as int] == 0
}
pub open spec fn single_hit(s: int, c: int, i: int) -> bool { 0 <= i < n_single(s) && tab_trans_keys()[key_base(s) + i] as int == c }
pub open spec fn range_hit(s: int, c: int, i: int) -> bool { 0 <= i < n_range(s) && range_lo(s, i) <= c <= range_hi(s, i) }
/// t is where state s finds its transition for character c: a single key, else a key range, else the default
pub open spec fn is_trans(s: int, c: int, t: int) -> bool {
    ||| exists|i: int| #[trigger] single_hit(s, c, i) && t == idx_base(s) + i
    ||| (forall|i: int| !#[trigger] single_hit(s, c, i)) && exists|i: int| #[trigger] range_hit(s, c, i) && t == idx_base(s) + n_single(s) + i
    ||| (forall|i: int| !#[trigger] single_hit(s, c, i)) && (forall|i: int| !#[trigger] range_hit(s, c, i)) && t == idx_base(s) + n_single(s) + n_range(s)
}
pub proof fn lemma_key_single(s: int, c: int, m: int) requires state_ok(s), 0 <= m - key_base(s) < n_single(s)
    ensures ({ let j = m - key_base(s); let x = tab_trans_keys()[m] as int;
        &&& c < x ==> forall|i: int| #[trigger] single_hit(s, c, i) ==> i < j
        &&& c > x ==> forall|i: int| #[trigger] single_hit(s, c, i) ==> i > j
        &&& c == x ==> single_hit(s, c, j) })
{
    let j = m - key_base(s); let x = tab_trans_keys()[m] as int;
    assert(tab_trans_keys()[key_base(s) + j] as int == x);
    assert forall|i: int| #[trigger] single_hit(s, c, i) && c < x implies i < j by { if j < i { assert(tab_trans_keys()[key_base(s) + j] < tab_trans_keys()[key_base(s) + i]); } }
    assert forall|i: int| #[trigger] single_hit(s, c, i) && c > x implies i > j by { if i < j { assert(tab_trans_keys()[key_base(s) + i] < tab_trans_keys()[key_base(s) + j]); } }
}
pub proof fn lemma_key_range(s: int, c: int, m: int) requires state_ok(s), (m - key_base(s) - n_single(s)) % 2 == 0, 0 <= (m - key_base(s) - n_single(s)) / 2 < n_range(s)
    ensures ({ let j = (m - key_base(s) - n_single(s)) / 2; let lo = tab_trans_keys()[m] as int; let hi = tab_trans_keys()[m + 1] as int;
        &&& c < lo ==> forall|i: int| #[trigger] range_hit(s, c, i) ==> i < j
        &&& c > hi ==> forall|i: int| #[trigger] range_hit(s, c, i) ==> i > j
        &&& lo <= c <= hi ==> range_hit(s, c, j) })
{
    let j = (m - key_base(s) - n_single(s)) / 2; let lo = tab_trans_keys()[m] as int; let hi = tab_trans_keys()[m + 1] as int;
    assert(m == key_base(s) + n_single(s) + 2 * j);
    assert(range_lo(s, j) == lo && range_hi(s, j) == hi);
    assert forall|i: int| #[trigger] range_hit(s, c, i) && c < lo implies i < j by { if j < i { assert(range_hi(s, j) < range_lo(s, i)); assert(range_lo(s, j) <= range_hi(s, j)); } }
    assert forall|i: int| #[trigger] range_hit(s, c, i) && c > hi implies i > j by { if i < j { assert(range_hi(s, i) < range_lo(s, j)); assert(range_lo(s, j) <= range_hi(s, j)); } }
}
/// the transition taken
pub open spec fn trans_of(t: int) -> int { tab_indicies()[t] as int }
pub proof fn lemma_trans(s: int, c: int, t: int) requires tables_ok(), 0 <= s < tab_key_offsets().len(), is_trans(s, c, t)
    ensures 0 <= t < tab_indicies().len(), 0 <= trans_of(t) < tab_trans_targs().len(), trans_ok(trans_of(t))
{ assert(state_ok(s)); assert(0 <= tab_indicies()[t] < tab_trans_targs().len()); assert(trans_ok(trans_of(t))); }

// ---- end of the parse
/// what is still open when the text ends
pub open spec fn parse_fails(s: Stacks) -> bool { s.len() > 2 || s.last().len() > 0 }
pub open spec fn end_msg(t: Str, p: int, s: Stacks) -> Str {
    if s.len() > 2 { msg_error(t, p, S!("Unclosed nested rule")) }
    else { let r = open_rule(s); msg_missing_tag(t, r.tag as int, r.tagname) }
}
/// the rules read, chained as siblings; a text without rules denotes the rule that matches anything
pub open spec fn end_rule(s: Stacks) -> RuleV { if s[0].len() == 0 { new_rule() } else { s[0].last() } }

// ---- what a text denotes: its tree of rules, or the error it is rejected with
pub uninterp spec fn hext_tree(t: Str) -> RuleV;
pub uninterp spec fn hext_error(t: Str) -> Option<Str>;
