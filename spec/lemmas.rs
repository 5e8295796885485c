// ---------------------------------------------------------------- lemmas used by the function proofs
pub proof fn lemma_count_bounds(p: NodeP, any: bool, t: int, from: int, to: int)
    ensures 0 <= count_kids(p, any, t, from, to), from <= to ==> count_kids(p, any, t, from, to) <= to - from
    decreases to - from
{ if to > from { lemma_count_bounds(p, any, t, from, to - 1); } }
pub proof fn lemma_count_front(p: NodeP, any: bool, t: int, from: int, to: int)
    requires from < to
    ensures count_kids(p, any, t, from, to) == count_kids(p, any, t, from + 1, to) + (if is_el(n_kid(p, from)) && (any || n_tag(n_kid(p, from)) == t) { 1int } else { 0 })
    decreases to - from
{ if from + 1 < to { lemma_count_front(p, any, t, from, to - 1); } else { assert(count_kids(p, any, t, from, to - 1) == 0); assert(count_kids(p, any, t, from + 1, to) == 0); } }
pub proof fn lemma_nth(a: int, b: int, pos: int)
    ensures a == 0 ==> (nth_holds(a, b, pos) <==> pos == b),
        a > 0 ==> (nth_holds(a, b, pos) <==> pos >= b && cmod(pos - b, a) == 0),
        a < 0 ==> (nth_holds(a, b, pos) <==> pos <= b && cmod(b - pos, a) == 0),
        a < 0 ==> (nth_holds(a, b, pos) <==> pos <= b && cmod(b - pos, -a) == 0),
        a < 0 ==> (nth_holds(a, b, pos) <==> pos <= b && cmod(b - pos, -1 * a) == 0),
        a < 0 ==> (nth_holds(a, b, pos) <==> pos <= b && cmod(pos - b, a) == 0),
        a < 0 ==> (nth_holds(a, b, pos) <==> pos <= b && cmod(pos - b, -a) == 0),
        a < 0 ==> (nth_holds(a, b, pos) <==> pos <= b && cmod(pos - b, -1 * a) == 0),
{
    if a == 0 {
        if pos == b { assert(pos == a * 0 + b); }
        assert forall|k: int| pos == #[trigger] (a * k) + b implies pos == b by { assert(a * k == 0) by (nonlinear_arith) requires a == 0; }
    } else {
        let m = if a > 0 { a } else { -a };
        let d = if a > 0 { pos - b } else { b - pos };
        if nth_holds(a, b, pos) {
            let k = choose|k: int| k >= 0 && pos == #[trigger] (a * k) + b;
            assert(d == m * k) by (nonlinear_arith) requires pos == (a * k) + b, m == (if a > 0 { a } else { -a }), d == (if a > 0 { pos - b } else { b - pos });
            assert(m * k >= 0) by (nonlinear_arith) requires m > 0, k >= 0;
            assert(d == k * m + 0) by (nonlinear_arith) requires d == m * k;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(d, m, k, 0);
            assert(m * k == m * (d / m));
        }
        if d >= 0 {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, m);
            assert(d == m * (d / m) + d % m);
            vstd::arithmetic::div_mod::lemma_div_pos_is_pos(d, m);
            if d % m == 0 {
                let k = d / m;
                assert(pos == (a * k) + b) by (nonlinear_arith) requires d == m * k, m == (if a > 0 { a } else { -a }), d == (if a > 0 { pos - b } else { b - pos });
            }
            assert(m * cdiv(d, m) == m * (d / m));
            if a < 0 {
                assert(pos - b == -d);
                assert(cdiv(-d, a) == d / m) by { if d == 0 { assert(0int / m == 0) by (nonlinear_arith) requires m > 0; } }
                assert(a * cdiv(-d, a) == -(m * (d / m))) by (nonlinear_arith) requires a == -m, cdiv(-d, a) == d / m;
                assert(cdiv(-d, m) == -(d / m)) by { if d == 0 { assert(0int / m == 0) by (nonlinear_arith) requires m > 0; } }
                assert(m * cdiv(-d, m) == -(m * (d / m))) by (nonlinear_arith) requires cdiv(-d, m) == -(d / m);
                assert(-1 * a == m);
            }
            if a < 0 { assert(cdiv(d, a) == -(d / m)); assert(a * cdiv(d, a) == m * (d / m)) by (nonlinear_arith) requires a == -m, cdiv(d, a) == -(d / m); }
        }
    }
}
pub proof fn lemma_pipe_len(p: PipeV) ensures pipe_len(p) >= 1, p.next is Some ==> 0 <= pipe_len(*p.next->Some_0) < pipe_len(p) decreases p
{ match p.next { Some(b) => { lemma_pipe_len(*b); }, None => {} } }
/// positions found by a scan for the first / last byte outside a set, and what trimming by that set leaves
pub proof fn lemma_first_not_of(s: Str, t: Str, i: int)
    requires 0 <= i
    ensures ({ let f = s_find_first_not_of(s, t, i); if f < 0 { f == -1 && forall|j: int| i <= j < s.len() ==> t.contains(#[trigger] s[j]) } else { i <= f < s.len() && !t.contains(s[f]) && forall|j: int| i <= j < f ==> t.contains(#[trigger] s[j]) } })
    decreases s.len() - i
{ if i < s.len() && t.contains(s[i]) { lemma_first_not_of(s, t, i + 1); } }
pub proof fn lemma_last_not_of(s: Str, t: Str, i: int)
    requires -1 <= i < s.len()
    ensures ({ let f = s_find_last_not_of_(s, t, i); if f < 0 { f == -1 && forall|j: int| 0 <= j <= i ==> t.contains(#[trigger] s[j]) } else { 0 <= f <= i && !t.contains(s[f]) && forall|j: int| f < j <= i ==> t.contains(#[trigger] s[j]) } })
    decreases i + 1
{ if 0 <= i && t.contains(s[i]) { lemma_last_not_of(s, t, i - 1); } }
pub proof fn lemma_trim_left(s: Str, t: Str)
    ensures ({ let r = trim_left_set(s, t); let n = s.len() - r.len(); 0 <= n && r =~= s.subrange(n, s.len() as int) && (r.len() > 0 ==> !t.contains(s[n])) && forall|j: int| 0 <= j < n ==> t.contains(#[trigger] s[j]) })
    decreases s.len()
{
    if s.len() > 0 && t.contains(s[0]) {
        let u = s.subrange(1, s.len() as int);
        lemma_trim_left(u, t);
        let r = trim_left_set(u, t);
        assert forall|j: int| 0 <= j < s.len() - r.len() implies t.contains(#[trigger] s[j]) by { if j > 0 { assert(u[j - 1] == s[j]); } }
    }
}
pub proof fn lemma_trim_right(s: Str, t: Str)
    ensures ({ let r = trim_right_set(s, t); r.len() <= s.len() && r =~= s.subrange(0, r.len() as int) && (r.len() > 0 ==> !t.contains(s[r.len() - 1])) && forall|j: int| r.len() <= j < s.len() ==> t.contains(#[trigger] s[j]) })
    decreases s.len()
{
    if s.len() > 0 && t.contains(s.last()) {
        let u = s.drop_last();
        lemma_trim_right(u, t);
        let r = trim_right_set(u, t);
        assert forall|j: int| r.len() <= j < s.len() implies t.contains(#[trigger] s[j]) by { if j < u.len() { assert(u[j] == s[j]); } }
        if r.len() > 0 { assert(u[r.len() - 1] == s[r.len() - 1]); }
    }
}
pub proof fn lemma_trim(s: Str, t: Str)
    ensures ({ let f = s_find_first_not_of(s, t, 0); let l = s_find_last_not_of(s, t, 18446744073709551615); let l2 = s_find_last_not_of_(s, t, s.len() - 1);
        if f < 0 { l2 < 0 && trim_set(s, t) =~= Seq::<i8>::empty() } else { 0 <= f <= l2 < s.len() && (s.len() <= 18446744073709551615 ==> l == l2) && trim_set(s, t) =~= s.subrange(f, l2 + 1) } })
{
    lemma_first_not_of(s, t, 0);
    lemma_last_not_of(s, t, s.len() - 1);
    lemma_trim_right(s, t);
    let r = trim_right_set(s, t);
    lemma_trim_left(r, t);
    let u = trim_left_set(r, t);
    let m = r.len() - u.len();
    assert forall|j: int| 0 <= j < r.len() implies r[j] == s[j] by {}
    if r.len() > 0 {
        let f = s_find_first_not_of(s, t, 0);
        assert(r[r.len() - 1] == s[r.len() - 1]);
        if m == r.len() { assert(t.contains(r[r.len() - 1])); }
        assert(!t.contains(s[m]));
        if f < m { assert(t.contains(r[f])); }
        assert(f == m);
        assert(s_find_last_not_of_(s, t, s.len() - 1) == r.len() - 1);
        assert(u =~= s.subrange(m, r.len() as int));
    }
}
pub proof fn lemma_word_at(s: Str, w: Str, i: int)
    ensures word_at(s, w, i) == (at_pos(s, w, i) && (i == 0 || s[i - 1] == 32) && (i + w.len() == s.len() || s[i + w.len()] == 32)), word_at(s, w, i) && w.len() > 0 ==> contains_word(s, w)
{}
