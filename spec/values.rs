// ---------------------------------------------------------------- conditions, captures, pipes as values
#[verifier::ext_equal]
pub enum FnV { Null, Text, InnerHtml, StripTags, Custom(int) }
#[verifier::ext_equal]
pub enum MFnV { Null, Custom(int) }
pub uninterp spec fn fn_custom(i: int, n: NodeP) -> Str;
pub uninterp spec fn mfn_custom(i: int, n: NodeP) -> bool;
pub open spec fn fn_call(f: FnV, n: NodeP) -> Str
{ match f { FnV::Null => Seq::empty(), FnV::Text => text_builtin(n), FnV::InnerHtml => inner_html(n), FnV::StripTags => strip_tags(n, false), FnV::Custom(i) => fn_custom(i, n) } }
pub open spec fn mfn_call(f: MFnV, n: NodeP) -> bool { match f { MFnV::Null => false, MFnV::Custom(i) => mfn_custom(i, n) } }

#[verifier::ext_equal]
pub enum TestV {
    EqualsTest { lit: Str }, BeginsWithTest { lit: Str }, EndsWithTest { lit: Str }, ContainsTest { lit: Str },
    ContainsWordsTest { words: Seq<Str> }, RegexTest { rx: RxV }, NegateTest { test: Option<Box<TestV>> }, CustomTest { id: int },
}
pub uninterp spec fn test_custom(i: int, s: Option<Str>) -> bool;
pub open spec fn contains_str(s: Str, lit: Str) -> bool { exists|i: int| at_pos(s, lit, i) }
pub open spec fn contains_words(s: Str, words: Seq<Str>) -> bool { words.len() > 0 && forall|i: int| 0 <= i < words.len() ==> contains_word(s, #[trigger] words[i]) }
/// the words of a list: separated by runs of spaces
pub open spec fn words_of(s: Str) -> Seq<Str> { split_set(trim_set(s, seq![32i8]), seq![32i8], true) }
/// does the test accept the value (None: the attribute is absent)
pub open spec fn test_holds(t: TestV, s: Option<Str>) -> bool decreases t
{
    match t {
        TestV::EqualsTest { lit } => s is Some && s->Some_0 =~= lit,
        TestV::BeginsWithTest { lit } => s is Some && at_pos(s->Some_0, lit, 0),
        TestV::EndsWithTest { lit } => s is Some && at_pos(s->Some_0, lit, s->Some_0.len() - lit.len()),
        TestV::ContainsTest { lit } => s is Some && contains_str(s->Some_0, lit),
        TestV::ContainsWordsTest { words } => s is Some && contains_words(s->Some_0, words),
        TestV::RegexTest { rx } => s is Some && rx_search(rx, s->Some_0),
        TestV::NegateTest { test } => match test { Some(b) => !test_holds(*b, s), None => s is None },
        TestV::CustomTest { id } => test_custom(id, s),
    }
}

#[verifier::ext_equal]
pub enum MatchV {
    AttributeCountMatch { attribute_count: u32 }, AttributeMatch { attr_name: Str, test: Option<Box<TestV>> }, ChildCountMatch { child_count: u32 },
    FunctionMatch { func: MFnV }, FunctionValueMatch { func: FnV, test: Option<Box<TestV>> }, NegateMatch { matches: Seq<Option<Box<MatchV>>> },
    NthChildMatch { step: i32, shift: i32, options: u32 }, OnlyChildMatch { options: u32 }, TypeRegexMatch { rx: RxV }, CustomMatch { id: int },
}
pub uninterp spec fn match_custom(i: int, n: NodeP) -> bool;
pub open spec fn nth_holds(a: int, b: int, pos: int) -> bool { exists|k: int| k >= 0 && pos == #[trigger] (a * k) + b }
pub open spec fn nth_first() -> int { 2 }
pub open spec fn nth_last() -> int { 4 }
pub open spec fn nth_oftype() -> int { 8 }
pub open spec fn only_oftype() -> int { 4 }
/// element children of p among the first i children that have tag t (all element children when any)
pub open spec fn count_kids(p: NodeP, any: bool, t: int, from: int, to: int) -> int decreases to - from
{ if to <= from { 0 } else { count_kids(p, any, t, from, to - 1) + (if is_el(n_kid(p, to - 1)) && (any || n_tag(n_kid(p, to - 1)) == t) { 1int } else { 0 }) } }
pub open spec fn has_parent_el(n: NodeP) -> bool { n is Kid && is_el(n_parent(n)) }
/// 1-based position among the element siblings (from the front or the back, optionally of the same tag only)
pub open spec fn el_position(n: NodeP, front: bool, any: bool) -> int
{
    match n {
        NodeP::Kid(p, i) => if !is_el(*p) { 0 } else if front { count_kids(*p, any, n_tag(n) as int, 0, i + 1) } else { count_kids(*p, any, n_tag(n) as int, i, n_nkids(*p) as int) },
        _ => 0,
    }
}
pub open spec fn el_children(n: NodeP) -> int { count_kids(n, true, 0, 0, n_nkids(n) as int) }
pub open spec fn only_child(n: NodeP, same_tag: bool) -> bool
{
    has_parent_el(n) && forall|i: int| 0 <= i < n_nkids(n_parent(n)) && is_el(#[trigger] n_kid(n_parent(n), i)) && n_kid(n_parent(n), i) != n
        ==> same_tag && n_tag(n_kid(n_parent(n), i)) != n_tag(n)
}
pub open spec fn match_holds(m: MatchV, n: NodeP) -> bool decreases m
{
    match m {
        MatchV::AttributeCountMatch { attribute_count } => is_el(n) && n_nattrs(n) == attribute_count,
        MatchV::AttributeMatch { attr_name, test } => is_el(n) && {
            let a = get_attr(n, up_to_nul(attr_name));
            match test { None => !(a is Null), Some(t) => if a is Null { test_holds(*t, None) } else { !a_value(a).null && test_holds(*t, Some(cstr(a_value(a)))) } }
        },
        MatchV::ChildCountMatch { child_count } => is_el(n) && el_children(n) == child_count,
        MatchV::FunctionMatch { func } => mfn_call(func, n),
        MatchV::FunctionValueMatch { func, test } => !(func is Null) && test is Some && test_holds(*test->Some_0, Some(up_to_nul(fn_call(func, n)))),
        MatchV::NegateMatch { matches } => forall|i: int| 0 <= i < matches.len() ==> !slot_holds(#[trigger] matches[i], n),
        MatchV::NthChildMatch { step, shift, options } => is_el(n) && nth_holds(step as int, shift as int, el_position(n, has_bit(options as int, nth_first()), !has_bit(options as int, nth_oftype()))),
        MatchV::OnlyChildMatch { options } => is_el(n) && only_child(n, has_bit(options as int, only_oftype())),
        MatchV::TypeRegexMatch { rx } => rx_search(rx, if is_el(n) { tag_name(n) } else { Seq::empty() }),
        MatchV::CustomMatch { id } => match_custom(id, n),
    }
}
/// an occupied slot of a condition list that accepts the node
pub open spec fn slot_holds(m: Option<Box<MatchV>>, n: NodeP) -> bool decreases m { match m { Some(b) => match_holds(*b, n), None => false } }
/// an empty slot accepts everything in a conjunction
pub open spec fn slot_ok(m: Option<Box<MatchV>>, n: NodeP) -> bool { match m { Some(b) => match_holds(*b, n), None => true } }

#[verifier::ext_equal]
pub enum PipeK {
    AppendPipe { suffix: Str }, PrependPipe { prefix: Str }, CasePipe { option: u32 }, CollapseWsPipe, RegexPipe { regex: RxV },
    RegexReplacePipe { regex: RxV, replace: Str }, TrimPipe { trim_any_of: Str }, CustomPipe { id: int },
}
#[verifier::ext_equal]
pub struct PipeV { pub k: PipeK, pub next: Option<Box<PipeV>> }
pub uninterp spec fn pipe_custom(i: int, s: Str) -> Str;
pub open spec fn case_lower() -> int { 2 }
pub open spec fn pipe_fn(k: PipeK, s: Str) -> Str
{
    match k {
        PipeK::AppendPipe { suffix } => s + suffix,
        PipeK::PrependPipe { prefix } => prefix + s,
        PipeK::CasePipe { option } => if has_bit(option as int, case_lower()) { to_lower(s) } else { to_upper(s) },
        PipeK::CollapseWsPipe => collapse(s),
        PipeK::RegexPipe { regex } => { let c = up_to_nul(s); if !rx_search(regex, c) { Seq::empty() } else if rx_groups(regex) > 1 { rx_group(regex, c, 1) } else { rx_group(regex, c, 0) } },
        PipeK::RegexReplacePipe { regex, replace } => rx_replace(regex, s, replace),
        PipeK::TrimPipe { trim_any_of } => trim_set(s, trim_any_of),
        PipeK::CustomPipe { id } => pipe_custom(id, s),
    }
}
/// the stages of a chain, in order
pub open spec fn stages(p: Option<Box<PipeV>>) -> Seq<PipeK> decreases p { match p { None => Seq::empty(), Some(b) => seq![b.k] + stages(b.next) } }
pub open spec fn pipe_all(p: PipeV, s: Str) -> Str decreases p { match p.next { None => pipe_fn(p.k, s), Some(b) => pipe_all(*b, pipe_fn(p.k, s)) } }
pub open spec fn pipe_append(p: PipeV, q: Option<Box<PipeV>>) -> PipeV decreases p
{ match p.next { None => PipeV { next: q, ..p }, Some(b) => PipeV { next: Some(Box::new(pipe_append(*b, q))), ..p } } }
pub open spec fn pipe_len(p: PipeV) -> int decreases p { match p.next { None => 1, Some(b) => 1 + pipe_len(*b) } }
pub open spec fn opt_pipe(p: Option<Box<PipeV>>, s: Str) -> Str { match p { None => s, Some(b) => pipe_all(*b, s) } }

#[verifier::ext_equal]
pub enum CapV { AttributeCapture { attr_name: Str, name: Str, pipe: Option<Box<PipeV>> }, FunctionCapture { func: FnV, name: Str, pipe: Option<Box<PipeV>> }, CustomCapture { id: int } }
pub uninterp spec fn cap_custom(i: int, n: NodeP) -> Option<(Str, Str)>;
pub open spec fn cap_of(c: CapV, n: NodeP) -> Option<(Str, Str)>
{
    match c {
        CapV::AttributeCapture { attr_name, name, pipe } => {
            let a = get_attr(n, up_to_nul(attr_name));
            if !is_el(n) || a is Null || a_value(a).null { None } else { Some((name, opt_pipe(pipe, cstr(a_value(a))))) }
        },
        CapV::FunctionCapture { func, name, pipe } => if func is Null { None } else { Some((name, opt_pipe(pipe, fn_call(func, n)))) },
        CapV::CustomCapture { id } => cap_custom(id, n),
    }
}

/// a rule by value
#[verifier::ext_equal]
pub struct RuleV {
    pub first_child: Option<Box<RuleV>>, pub next: Option<Box<RuleV>>, pub nested: Seq<RuleV>, pub matches: Seq<Option<Box<MatchV>>>,
    pub captures: Seq<Option<Box<CapV>>>, pub tag: i32, pub is_optional: bool, pub is_greedy: bool, pub tagname: Option<Str>,
}
pub open spec fn rule_append_next(r: RuleV, s: RuleV) -> RuleV decreases r
{ match r.next { None => RuleV { next: Some(Box::new(s)), ..r }, Some(b) => RuleV { next: Some(Box::new(rule_append_next(*b, s))), ..r } } }
pub open spec fn rule_append_child(r: RuleV, s: RuleV) -> RuleV
{ match r.first_child { None => RuleV { first_child: Some(Box::new(s)), ..r }, Some(b) => RuleV { first_child: Some(Box::new(rule_append_next(*b, s))), ..r } } }
pub open spec fn rule_chain(r: RuleV) -> int decreases r { match r.next { None => 1, Some(b) => 1 + rule_chain(*b) } }
pub open spec fn rule_hops_get(r: RuleV, k: int) -> RuleV decreases k { if k <= 0 { r } else { match r.next { None => r, Some(b) => rule_hops_get(*b, k - 1) } } }
pub open spec fn rule_hops_set(r: RuleV, k: int, v: RuleV) -> RuleV decreases k
{ if k <= 0 { v } else { match r.next { None => v, Some(b) => RuleV { next: Some(Box::new(rule_hops_set(*b, k - 1, v))), ..r } } } }

/// tag and tag name of a rule built from a tag name
pub open spec fn rule_tag_of(name: Str) -> int { gumbo_tag_enum(up_to_nul(name)) as int }
pub open spec fn rule_tagname_of(name: Str) -> Option<Str> { if rule_tag_of(name) == HTMLTAG_UNKNOWN() { Some(name) } else { None } }
pub proof fn lemma_rule_chain(r: RuleV) ensures rule_chain(r) >= 1, decreases r { if let Some(b) = r.next { lemma_rule_chain(*b); } }
/// appending at the end of the list = storing into the last rule reached along `next`
pub proof fn lemma_rule_append_hops(r: RuleV, k: int, s: RuleV)
    requires 0 <= k < rule_chain(r), rule_hops_get(r, k).next is None,
    ensures rule_hops_set(r, k, RuleV { next: Some(Box::new(s)), ..rule_hops_get(r, k) }) == rule_append_next(r, s), k == rule_chain(r) - 1,
    decreases r
{ if let Some(b) = r.next { lemma_rule_chain(*b); if k > 0 { lemma_rule_append_hops(*b, k - 1, s); } } }
pub proof fn lemma_rule_hops_step(r: RuleV, k: int)
    requires 0 <= k < rule_chain(r),
    ensures (rule_hops_get(r, k).next is Some) == (k + 1 < rule_chain(r)), decreases r
{ if let Some(b) = r.next { lemma_rule_chain(*b); if k > 0 { lemma_rule_hops_step(*b, k - 1); } } }

// ---------------------------------------------------------------- rules reached through const pointers
#[verifier::ext_equal]
pub enum RuleP { Null, Top(int), Next(Box<RuleP>), Child(Box<RuleP>), Nested(Box<RuleP>, int) }
pub uninterp spec fn r_has_next(p: RuleP) -> bool;
pub uninterp spec fn r_has_child(p: RuleP) -> bool;
pub uninterp spec fn r_raw_nnested(p: RuleP) -> nat;
pub uninterp spec fn RD() -> nat;
pub uninterp spec fn RL() -> nat;
/// nesting depth of a rule (children and nested rules are one deeper), position in its sibling list
pub open spec fn r_depth(p: RuleP) -> nat decreases p
{ match p { RuleP::Next(q) => r_depth(*q), RuleP::Child(q) => r_depth(*q) + 1, RuleP::Nested(q, _) => r_depth(*q) + 1, _ => 0 } }
pub open spec fn r_pos(p: RuleP) -> nat decreases p { match p { RuleP::Next(q) => r_pos(*q) + 1, _ => 0 } }
pub open spec fn r_next(p: RuleP) -> RuleP { if !(p is Null) && r_has_next(p) && r_pos(p) < RL() { RuleP::Next(Box::new(p)) } else { RuleP::Null } }
pub open spec fn r_child(p: RuleP) -> RuleP { if !(p is Null) && r_has_child(p) && r_depth(p) < RD() { RuleP::Child(Box::new(p)) } else { RuleP::Null } }
pub open spec fn r_nnested(p: RuleP) -> nat { if !(p is Null) && r_depth(p) < RD() { r_raw_nnested(p) } else { 0 } }
pub open spec fn r_nest(p: RuleP, i: int) -> RuleP { RuleP::Nested(Box::new(p), i) }
pub open spec fn r_ht(p: RuleP) -> int { if p is Null { 0 } else if r_depth(p) <= RD() { RD() - r_depth(p) } else { 0 } }
pub uninterp spec fn r_matches(p: RuleP) -> Seq<Option<Box<MatchV>>>;
pub uninterp spec fn r_captures(p: RuleP) -> Seq<Option<Box<CapV>>>;
pub uninterp spec fn r_tag(p: RuleP) -> i32;
pub uninterp spec fn r_is_optional(p: RuleP) -> bool;
pub uninterp spec fn r_is_greedy(p: RuleP) -> bool;
pub uninterp spec fn r_tagname(p: RuleP) -> Option<Str>;
/// C05: the rule node alone accepts the node
pub open spec fn tag_accepts(p: RuleP, n: NodeP) -> bool
{
    r_tag(p) == HTMLTAG_ANY() || (is_el(n) && n_tag(n) == r_tag(p) && (r_tag(p) != HTMLTAG_UNKNOWN() ||
        (r_tagname(p) is Some && !n_otag(n).null && n_otag_len(n) != 0 && eq_ignore_case(r_tagname(p)->Some_0, orig_name(n)))))
}
pub open spec fn rule_accepts(p: RuleP, n: NodeP) -> bool
{ tag_accepts(p, n) && forall|i: int| 0 <= i < r_matches(p).len() ==> slot_ok(#[trigger] r_matches(p)[i], n) }
/// C12: values captured by the first i captures of a rule node
pub open spec fn caps_upto(cs: Seq<Option<Box<CapV>>>, n: NodeP, i: int) -> Seq<(Str, Str)> decreases i
{
    if i <= 0 { Seq::empty() } else {
        let p = caps_upto(cs, n, i - 1);
        match cs[i - 1] { Some(c) => match cap_of(*c, n) { Some(v) => p.push(v), None => p }, None => p }
    }
}
pub open spec fn caps(cs: Seq<Option<Box<CapV>>>, n: NodeP) -> Seq<(Str, Str)> { caps_upto(cs, n, cs.len() as int) }
/// multimap insertion: behind all entries whose key is not greater
pub open spec fn less_at(a: Str, b: Str, i: int) -> bool decreases b.len() - i
{ if i < 0 || i >= b.len() { false } else if i >= a.len() { true } else if a[i] != b[i] { (a[i] as u8) < (b[i] as u8) } else { less_at(a, b, i + 1) } }
/// std::string's order: by the first different character (as unsigned char), a prefix first
#[verifier::opaque]
pub open spec fn str_less(a: Str, b: Str) -> bool { less_at(a, b, 0) }
pub open spec fn mm_upper(m: Seq<(Str, Str)>, key: Str, i: int) -> int decreases m.len() - i
{ if i < 0 || i >= m.len() { m.len() as int } else if str_less(key, m[i].0) { i } else { mm_upper(m, key, i + 1) } }
pub open spec fn mm_insert(m: Seq<(Str, Str)>, e: (Str, Str)) -> Seq<(Str, Str)> { m.insert(mm_upper(m, e.0, 0), e) }
pub open spec fn mm_insert_n(m: Seq<(Str, Str)>, es: Seq<(Str, Str)>, i: int) -> Seq<(Str, Str)> decreases i
{ if i <= 0 { m } else { mm_insert(mm_insert_n(m, es, i - 1), es[i - 1]) } }
pub open spec fn mm_insert_all(m: Seq<(Str, Str)>, es: Seq<(Str, Str)>) -> Seq<(Str, Str)> { mm_insert_n(m, es, es.len() as int) }
