// ---------------------------------------------------------------- machine arithmetic
pub open spec fn wrap_u8(x: int) -> int { x % 256 }
pub open spec fn wrap_u16(x: int) -> int { x % 65536 }
pub open spec fn wrap_u32(x: int) -> int { x % 0x1_0000_0000 }
pub open spec fn wrap_u64(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
pub open spec fn wrap_i8(x: int) -> int { (x + 128) % 256 - 128 }
pub open spec fn wrap_i16(x: int) -> int { (x + 32768) % 65536 - 32768 }
pub open spec fn wrap_i32(x: int) -> int { (x + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000 }
pub open spec fn wrap_i64(x: int) -> int { (x + 0x8000_0000_0000_0000) % 0x1_0000_0000_0000_0000 - 0x8000_0000_0000_0000 }
/// C++ division and remainder truncate towards zero
pub open spec fn cdiv(a: int, b: int) -> int
{ if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn cmod(a: int, b: int) -> int { a - b * cdiv(a, b) }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn max(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn bitand_i32(a: int, b: int) -> int { wrap_i32(((wrap_u32(a) as u32) & (wrap_u32(b) as u32)) as int) }
pub open spec fn bitor_i32(a: int, b: int) -> int { wrap_i32(((wrap_u32(a) as u32) | (wrap_u32(b) as u32)) as int) }
pub open spec fn bitand_u32(a: int, b: int) -> int { wrap_u32(((wrap_u32(a) as u32) & (wrap_u32(b) as u32)) as int) }
pub open spec fn bitor_u32(a: int, b: int) -> int { wrap_u32(((wrap_u32(a) as u32) | (wrap_u32(b) as u32)) as int) }
/// bit b of an option word
pub open spec fn has_bit(o: int, b: int) -> bool { bitand_u32(o, b) != 0 }

// ---------------------------------------------------------------- strings
pub type Str = Seq<i8>;
/// a `const char *`: position `off` in a buffer
#[verifier::ext_equal]
pub struct CP { pub null: bool, pub buf: Seq<i8>, pub off: int }
pub open spec fn index_of_nul(s: Str, i: int) -> int decreases s.len() - i
{ if i < 0 || i >= s.len() { s.len() as int } else if s[i] == 0 { i } else { index_of_nul(s, i + 1) } }
pub open spec fn up_to_nul(s: Str) -> Str { s.subrange(0, index_of_nul(s, 0)) }
pub open spec fn cstr(p: CP) -> Str { if 0 <= p.off <= p.buf.len() { up_to_nul(p.buf.subrange(p.off, p.buf.len() as int)) } else { Seq::empty() } }
pub open spec fn subj(p: CP) -> Option<Str> { if p.null { None } else { Some(cstr(p)) } }
pub open spec fn cp_take(p: CP, n: int) -> Str { if 0 <= n && 0 <= p.off && p.off + n <= p.buf.len() { p.buf.subrange(p.off, p.off + n) } else { Seq::empty() } }
pub open spec fn str_take(s: Str, n: int) -> Str { if 0 <= n < s.len() { s.subrange(0, n) } else { s } }
pub open spec fn str_resize(s: Str, n: int, c: i8) -> Str { if n <= s.len() { s.subrange(0, n) } else { s + Seq::new((n - s.len()) as nat, |i: int| c) } }
pub open spec fn piece_ok(p: CP, n: int) -> bool { n == 0 || (!p.null && 0 <= p.off && p.off + n <= p.buf.len()) }
pub open spec fn piece(p: CP, n: int) -> Str { cp_take(p, n) }
pub uninterp spec fn str_cmp_nz(a: Str, b: Str) -> int;
/// std::string::compare: zero exactly for equal strings (the order of different strings is not used)
pub open spec fn str_cmp(a: Str, b: Str) -> int { if a =~= b { 0 } else { let r = str_cmp_nz(a, b); if r == 0 { 1 } else { r } } }
pub open spec fn rev<A>(s: Seq<A>) -> Seq<A> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn at_pos(s: Str, t: Str, i: int) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) =~= t }
pub open spec fn s_find(s: Str, t: Str, i: int) -> int decreases s.len() - i + 1
{ if i < 0 || i + t.len() > s.len() { -1 } else if at_pos(s, t, i) { i } else { s_find(s, t, i + 1) } }
pub open spec fn s_rfind(s: Str, t: Str, i: int) -> int
{ if i < 0 { -1 } else if i + t.len() > s.len() { if s.len() < t.len() { -1 } else { s_rfind_(s, t, s.len() - t.len()) } } else { s_rfind_(s, t, i) } }
pub open spec fn s_rfind_(s: Str, t: Str, i: int) -> int decreases i + 1
{ if i < 0 { -1 } else if at_pos(s, t, i) { i } else { s_rfind_(s, t, i - 1) } }
pub open spec fn s_find_first_of(s: Str, t: Str, i: int) -> int decreases s.len() - i
{ if i < 0 || i >= s.len() { -1 } else if t.contains(s[i]) { i } else { s_find_first_of(s, t, i + 1) } }
pub open spec fn s_find_first_not_of(s: Str, t: Str, i: int) -> int decreases s.len() - i
{ if i < 0 || i >= s.len() { -1 } else if !t.contains(s[i]) { i } else { s_find_first_not_of(s, t, i + 1) } }
pub open spec fn s_find_last_of(s: Str, t: Str, i: int) -> int { s_find_last_of_(s, t, min(i, s.len() - 1)) }
pub open spec fn s_find_last_of_(s: Str, t: Str, i: int) -> int decreases i + 1
{ if i < 0 || i >= s.len() { -1 } else if t.contains(s[i]) { i } else { s_find_last_of_(s, t, i - 1) } }
pub open spec fn s_find_last_not_of(s: Str, t: Str, i: int) -> int { s_find_last_not_of_(s, t, min(i, s.len() - 1)) }
pub open spec fn s_find_last_not_of_(s: Str, t: Str, i: int) -> int decreases i + 1
{ if i < 0 || i >= s.len() { -1 } else if !t.contains(s[i]) { i } else { s_find_last_not_of_(s, t, i - 1) } }
pub open spec fn pos64(i: int) -> int { if i < 0 { 18446744073709551615 } else { i } }
pub open spec fn s_count(s: Str, c: i8) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { s_count(s.drop_last(), c) + (if s.last() == c { 1int } else { 0 }) } }
pub open spec fn s_index_of(s: Str, c: i8) -> int decreases s.len()
{ if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + s_index_of(s.subrange(1, s.len() as int), c) } }
pub open spec fn digit(n: int) -> i8 { (48 + n) as i8 }
pub open spec fn dec_nat(n: int) -> Str decreases n
{ if n < 10 { seq![digit(n)] } else { dec_nat(n / 10).push(digit(n % 10)) } }
/// decimal notation
pub open spec fn dec(n: int) -> Str { if n < 0 { seq![45i8] + dec_nat(-n) } else { dec_nat(n) } }
pub open spec fn blanks(n: int, c: i8) -> Str { Seq::new((if n < 0 { 0 } else { n }) as nat, |i: int| c) }
pub open spec fn pad_left(s: Str, n: int) -> Str { if n > s.len() { Seq::new((n - s.len()) as nat, |i: int| 32i8) + s } else { s } }
pub open spec fn quoted_body(s: Str) -> Str decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let p = quoted_body(s.drop_last()); if s.last() == 34 || s.last() == 92 { p.push(92i8).push(s.last()) } else { p.push(s.last()) } } }
pub open spec fn quoted(s: Str) -> Str { (seq![34i8] + quoted_body(s)).push(34i8) }
pub open spec fn lower_c(c: i8) -> i8 { if 65 <= c <= 90 { (c + 32) as i8 } else { c } }
pub open spec fn upper_c(c: i8) -> i8 { if 97 <= c <= 122 { (c - 32) as i8 } else { c } }
pub open spec fn to_lower(s: Str) -> Str { Seq::new(s.len(), |i: int| lower_c(s[i])) }
pub open spec fn to_upper(s: Str) -> Str { Seq::new(s.len(), |i: int| upper_c(s[i])) }
pub open spec fn eq_ignore_case(a: Str, b: Str) -> bool { to_lower(a) =~= to_lower(b) }
pub open spec fn c_tolower(c: int) -> int { if 65 <= c <= 90 { c + 32 } else { c } }
pub open spec fn c_toupper(c: int) -> int { if 97 <= c <= 122 { c - 32 } else { c } }
pub open spec fn c_isprint(c: int) -> int { if 32 <= c <= 126 { 1 } else { 0 } }
pub open spec fn c_isspace(c: int) -> int { if c == 32 || 9 <= c <= 13 { 1 } else { 0 } }
pub open spec fn c_isdigit(c: int) -> int { if 48 <= c <= 57 { 1 } else { 0 } }
pub open spec fn trim_left_set(s: Str, t: Str) -> Str decreases s.len()
{ if s.len() > 0 && t.contains(s[0]) { trim_left_set(s.subrange(1, s.len() as int), t) } else { s } }
pub open spec fn trim_right_set(s: Str, t: Str) -> Str decreases s.len()
{ if s.len() > 0 && t.contains(s.last()) { trim_right_set(s.drop_last(), t) } else { s } }
pub open spec fn trim_set(s: Str, t: Str) -> Str { trim_left_set(trim_right_set(s, t), t) }
pub uninterp spec fn split_set(s: Str, t: Str, compress: bool) -> Seq<Str>;
pub open spec fn split_keep(s: Str, d: Str) -> Seq<Str> decreases s.len()
{
    if s.len() == 0 { seq![Seq::empty()] } else {
        let p = split_keep(s.drop_last(), d);
        if d.contains(s.last()) { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub open spec fn drop_empty(v: Seq<Str>) -> Seq<Str> decreases v.len()
{ if v.len() == 0 { v } else { let p = drop_empty(v.drop_last()); if v.last().len() > 0 { p.push(v.last()) } else { p } } }
/// boost::tokenizer with a char_separator that keeps no delimiters
pub open spec fn split_on(s: Str, delims: Str, keep_empty: bool) -> Seq<Str> { if keep_empty { split_keep(s, delims) } else { drop_empty(split_keep(s, delims)) } }
pub proof fn lemma_split_keep(s: Str, d: Str) ensures 1 <= split_keep(s, d).len() <= s.len() + 1 decreases s.len() { if s.len() > 0 { lemma_split_keep(s.drop_last(), d); } }
pub proof fn lemma_drop_empty(v: Seq<Str>) ensures drop_empty(v).len() <= v.len() decreases v.len() { if v.len() > 0 { lemma_drop_empty(v.drop_last()); } }
pub broadcast proof fn ax_split(s: Str, d: Str, k: bool) ensures #[trigger] split_on(s, d, k).len() <= s.len() + 1 { lemma_split_keep(s, d); lemma_drop_empty(split_keep(s, d)); }
pub uninterp spec fn exc_what() -> CP;

/// boost::regex objects and searches (the matcher itself is a dependency)
#[verifier::ext_equal]
pub struct RxV { pub id: int }
pub uninterp spec fn rx_make(s: Str, flags: int) -> RxV;
pub uninterp spec fn rx_valid(s: Str, flags: int) -> bool;
pub uninterp spec fn rx_empty() -> RxV;
pub uninterp spec fn rx_search(r: RxV, s: Str) -> bool;
pub uninterp spec fn rx_match(r: RxV, s: Str) -> bool;
pub uninterp spec fn rx_groups(r: RxV) -> int;
pub uninterp spec fn rx_group(r: RxV, s: Str, i: int) -> Str;
pub uninterp spec fn rx_replace(r: RxV, s: Str, fmt: Str) -> Str;

// ---------------------------------------------------------------- facts about the string functions
pub broadcast proof fn ax_find(s: Str, t: Str, i: int)
    requires 0 <= i
    ensures
        (#[trigger] s_find(s, t, i)) >= 0 ==> i <= s_find(s, t, i) && at_pos(s, t, s_find(s, t, i)),
        s_find(s, t, i) >= -1,
        s_find(s, t, i) >= 0 ==> (word_at(s, t, s_find(s, t, i)) == ((s_find(s, t, i) == 0 || s[s_find(s, t, i) - 1] == 32) && (s_find(s, t, i) + t.len() == s.len() || s[s_find(s, t, i) + t.len()] == 32))),
        forall|j: int| i <= j && (s_find(s, t, i) < 0 || j < s_find(s, t, i)) ==> !(#[trigger] at_pos(s, t, j)),
    decreases s.len() - i + 1
{
    if i + t.len() > s.len() {
    } else if at_pos(s, t, i) {
    } else { ax_find(s, t, i + 1); }
}
pub broadcast proof fn ax_count(s: Str, c: i8)
    ensures 0 <= #[trigger] s_count(s, c) <= s.len(),
            s_count(s, c) > 0 ==> s.contains(c),
    decreases s.len()
{
    if s.len() > 0 {
        ax_count(s.drop_last(), c);
        if s.last() == c { assert(s[s.len() - 1] == c); }
        if s_count(s.drop_last(), c) > 0 { let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == c; assert(s[j] == c); }
    }
}
pub broadcast proof fn ax_index_of(s: Str, c: i8)
    ensures 0 <= #[trigger] s_index_of(s, c) <= s.len(),
        s_index_of(s, c) < s.len() ==> s[s_index_of(s, c)] == c,
        forall|j: int| 0 <= j < s_index_of(s, c) ==> s[j] != c,
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        let t = s.subrange(1, s.len() as int);
        ax_index_of(t, c);
        assert forall|j: int| 0 <= j < s_index_of(s, c) implies s[j] != c by { if j > 0 { assert(t[j - 1] == s[j]); } }
    }
}
pub broadcast proof fn ax_nul(s: Str, i: int)
    requires 0 <= i
    ensures i <= s.len() ==> i <= #[trigger] index_of_nul(s, i) <= s.len(), index_of_nul(s, i) <= s.len(),
        index_of_nul(s, i) < s.len() ==> s[index_of_nul(s, i)] == 0,
        forall|j: int| i <= j < index_of_nul(s, i) && j < s.len() ==> s[j] != 0,
    decreases s.len() - i
{
    if i < s.len() && s[i] != 0 { ax_nul(s, i + 1); }
}
proof fn lemma_nul_push(s: Str, i: int) requires 0 <= i <= s.len() ensures index_of_nul(s.push(0i8), i) == index_of_nul(s, i) decreases s.len() - i
{ if i < s.len() && s[i] != 0 { lemma_nul_push(s, i + 1); assert(s.push(0i8)[i] == s[i]); } else if i < s.len() { assert(s.push(0i8)[i] == s[i]); } }
/// c_str(): the content up to the first NUL
pub broadcast proof fn ax_c_str(s: Str, n: bool)
    ensures #[trigger] cstr(CP { null: n, buf: s.push(0i8), off: 0 }) == up_to_nul(s)
{ lemma_nul_push(s, 0); let b = s.push(0i8); assert(b.subrange(0, b.len() as int) =~= b); assert(b.subrange(0, index_of_nul(b, 0)) =~= s.subrange(0, index_of_nul(s, 0))) by { ax_nul(s, 0); } }
pub broadcast group string_facts { ax_c_str, ax_find, ax_count, ax_index_of, ax_nul, ax_split }

// ---------------------------------------------------------------- C09 whitespace
pub open spec fn is_ws(c: i8) -> bool { c == 32 || c == 9 || c == 10 || c == 12 || c == 13 }
/// output and pending space after consuming a prefix
pub open spec fn cw_out(s: Str) -> Str decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let p = s.drop_last();
        let c = s.last();
        if is_ws(c) { cw_out(p) } else if cw_pend(p) { cw_out(p).push(32i8).push(c) } else { cw_out(p).push(c) }
    }
}
pub open spec fn cw_pend(s: Str) -> bool decreases s.len()
{ s.len() > 0 && is_ws(s.last()) && cw_out(s.drop_last()).len() > 0 }
pub open spec fn collapse(s: Str) -> Str { cw_out(s) }

// ---------------------------------------------------------------- C08 words
pub open spec fn word_at(s: Str, w: Str, i: int) -> bool
{ at_pos(s, w, i) && (i == 0 || s[i - 1] == 32) && (i + w.len() == s.len() || s[i + w.len()] == 32) }
pub open spec fn contains_word(s: Str, w: Str) -> bool { w.len() > 0 && exists|i: int| word_at(s, w, i) }
pub open spec fn line_of_(s: Str) -> int { s_count(s, 10) }
/// offset behind the last newline
pub open spec fn col_of_(s: Str) -> int decreases s.len()
{ if s.len() == 0 || s.last() == 10 { 0 } else { 1 + col_of_(s.drop_last()) } }
pub proof fn lemma_dec_len(n: int, k: int)
    requires 0 <= n, n < 18446744073709551616
    ensures 1 <= dec_nat(n).len() <= 20
{
    reveal_with_fuel(dec_nat, 21);
}
pub proof fn lemma_col(s: Str)
    ensures 0 <= col_of_(s) <= s.len(),
        forall|j: int| s.len() - col_of_(s) <= j < s.len() ==> s[j] != 10,
        col_of_(s) < s.len() ==> s[s.len() - col_of_(s) - 1] == 10,
        s_index_of(rev(s), 10) == col_of_(s),
        s_count(s, 10) == 0 <==> col_of_(s) == s.len(),
        s_count(s, 10) >= 0,
    decreases s.len()
{
    broadcast use string_facts;
    if s.len() > 0 { assert(rev(s)[0] == s.last()); assert(rev(s).subrange(1, rev(s).len() as int) =~= rev(s.drop_last())); if s.last() != 10 { lemma_col(s.drop_last()); } }
    if s.len() == 0 || s.last() == 10 { } else {
        lemma_col(s.drop_last());
        assert forall|j: int| s.len() - col_of_(s) <= j < s.len() implies s[j] != 10 by { if j < s.len() - 1 { assert(s.drop_last()[j] == s[j]); } }
        if col_of_(s) < s.len() { assert(s.drop_last()[s.len() - col_of_(s) - 1] == s[s.len() - col_of_(s) - 1]); }
    }
}
