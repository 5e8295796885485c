// ---------------------------------------------------------------- C21: the records as JSON
#[verifier::ext_equal]
pub enum Js { Null, Str(Str), Arr(Seq<Js>), Obj(Seq<(Str, Js)>) }
pub open spec fn js_str(v: Js) -> Str { v->Str_0 }
pub open spec fn js_items(v: Js) -> Seq<Js> { v->Arr_0 }
pub open spec fn js_members(v: Js) -> Seq<(Str, Js)> { v->Obj_0 }
/// rapidjson's text of a value, compact or indented
pub uninterp spec fn js_text(v: Js, pretty: bool) -> Str;
/// the first member of that name
pub open spec fn js_find(ms: Seq<(Str, Js)>, n: Str, i: int) -> int decreases ms.len() - i
{ if i < 0 || i >= ms.len() { ms.len() as int } else if ms[i].0 == n { i } else { js_find(ms, n, i + 1) } }
pub open spec fn js_has(ms: Seq<(Str, Js)>, n: Str) -> bool { js_find(ms, n, 0) < ms.len() }
pub open spec fn js_get(ms: Seq<(Str, Js)>, n: Str) -> Js { ms[js_find(ms, n, 0)].1 }
pub open spec fn js_set(ms: Seq<(Str, Js)>, n: Str, v: Js) -> Seq<(Str, Js)> { ms.update(js_find(ms, n, 0), (n, v)) }

/// the names of a record, each once
pub open spec fn rec_names(m: Seq<(Str, Str)>) -> Seq<Str> decreases m.len()
{ if m.len() == 0 { Seq::empty() } else { let k = rec_names(m.drop_last()); if k.contains(m.last().0) { k } else { k.push(m.last().0) } } }
/// the values of a name, in order
pub open spec fn rec_vals(m: Seq<(Str, Str)>, n: Str) -> Seq<Js> decreases m.len()
{ if m.len() == 0 { Seq::empty() } else { let r = rec_vals(m.drop_last(), n); if m.last().0 == n { r.push(Js::Str(m.last().1)) } else { r } } }
/// a string when it occurred once, otherwise the array of all its values
pub open spec fn rec_val(m: Seq<(Str, Str)>, n: Str) -> Js { let v = rec_vals(m, n); if v.len() == 1 { v[0] } else { Js::Arr(v) } }
pub open spec fn rec_json(m: Seq<(Str, Str)>) -> Seq<(Str, Js)> { Seq::new(rec_names(m).len(), |i: int| (rec_names(m)[i], rec_val(m, rec_names(m)[i]))) }
pub open spec fn recs_json(rs: Seq<Seq<(Str, Str)>>) -> Seq<Js> { Seq::new(rs.len(), |i: int| Js::Obj(rec_json(rs[i]))) }
pub open spec fn json_line(v: Js, pretty: bool) -> Str { js_text(v, pretty).push(10i8) }
/// one object per line
pub open spec fn json_lines(rs: Seq<Js>, pretty: bool) -> Str decreases rs.len()
{ if rs.len() == 0 { Seq::empty() } else { json_lines(rs.drop_last(), pretty) + json_line(rs.last(), pretty) } }
pub open spec fn json_out(rs: Seq<Js>, envelope: bool, pretty: bool) -> Str
{ if !envelope { json_lines(rs, pretty) } else if rs.len() == 0 { Seq::empty() } else { json_line(Js::Arr(rs), pretty) } }

pub mod json_lemmas { use super::*; verus! {
pub proof fn lemma_take_all(s: Str)
    ensures forall|x: bool, n: int| n == s.len() ==> #[trigger] cp_take(CP { null: x, buf: s.push(0i8), off: 0 }, n) == s
{ assert(s.push(0i8).subrange(0, s.len() as int) =~= s); }
/// the two option bits
pub proof fn lemma_json_opt(o: int)
    requires 0 <= o <= 3
    ensures (bitand_i32(o, 1) == 1) == (o == 1 || o == 3), (bitand_i32(o, 2) == 2) == (o == 2 || o == 3)
{
    assert((0u32 & 1u32) == 0 && (1u32 & 1u32) == 1 && (2u32 & 1u32) == 0 && (3u32 & 1u32) == 1) by (bit_vector);
    assert((0u32 & 2u32) == 0 && (1u32 & 2u32) == 0 && (2u32 & 2u32) == 2 && (3u32 & 2u32) == 2) by (bit_vector);
    if o == 0 {} else if o == 1 {} else if o == 2 {} else { assert(o == 3); }
}
pub proof fn lemma_json_or()
    ensures bitor_i32(0, 1) == 1, bitor_i32(0, 2) == 2, bitor_i32(1, 2) == 3, bitor_i32(2, 1) == 3
{ assert((0u32 | 1u32) == 1 && (0u32 | 2u32) == 2 && (1u32 | 2u32) == 3 && (2u32 | 1u32) == 3) by (bit_vector); }
pub proof fn lemma_rec_empty(m: Seq<(Str, Str)>) requires m.len() == 0 ensures rec_json(m) =~= Seq::<(Str, Js)>::empty() {}
pub proof fn lemma_js_find(ms: Seq<(Str, Js)>, n: Str, i: int)
    requires 0 <= i <= ms.len()
    ensures i <= js_find(ms, n, i) <= ms.len(), js_find(ms, n, i) < ms.len() ==> ms[js_find(ms, n, i)].0 == n,
        forall|j: int| i <= j < js_find(ms, n, i) ==> (#[trigger] ms[j]).0 != n
    decreases ms.len() - i
{ if i < ms.len() && ms[i].0 != n { lemma_js_find(ms, n, i + 1); } }
pub proof fn lemma_js_at(ms: Seq<(Str, Js)>, n: Str, k: int)
    requires 0 <= k < ms.len(), ms[k].0 == n, forall|j: int| 0 <= j < k ==> (#[trigger] ms[j]).0 != n
    ensures js_find(ms, n, 0) == k
{ lemma_js_find(ms, n, 0); let f = js_find(ms, n, 0); if f < k { assert(ms[f].0 == n); } if f > k { assert(ms[k].0 != n); } }
/// replacing a member keeps the others and can be repeated
pub proof fn lemma_js_set(ms: Seq<(Str, Js)>, n: Str, v: Js)
    requires js_has(ms, n)
    ensures js_has(js_set(ms, n, v), n), js_get(js_set(ms, n, v), n) == v, js_find(js_set(ms, n, v), n, 0) == js_find(ms, n, 0),
        forall|w: Js| #[trigger] js_set(js_set(ms, n, v), n, w) == js_set(ms, n, w)
{
    lemma_js_find(ms, n, 0);
    let f = js_find(ms, n, 0);
    let u = js_set(ms, n, v);
    assert forall|j: int| 0 <= j < f implies (#[trigger] u[j]).0 != n by { assert(u[j] == ms[j]); }
    lemma_js_at(u, n, f);
    assert forall|w: Js| #[trigger] js_set(u, n, w) == js_set(ms, n, w) by { assert(js_set(u, n, w) =~= js_set(ms, n, w)); }
}
pub proof fn lemma_js_sets(ms: Seq<(Str, Js)>, n: Str)
    requires js_has(ms, n)
    ensures forall|v: Js| js_has(#[trigger] js_set(ms, n, v), n), forall|v: Js| #[trigger] js_get(js_set(ms, n, v), n) == v,
        forall|v: Js, w: Js| #[trigger] js_set(js_set(ms, n, v), n, w) == js_set(ms, n, w)
{
    assert forall|v: Js| js_has(#[trigger] js_set(ms, n, v), n) by { lemma_js_set(ms, n, v); }
    assert forall|v: Js| #[trigger] js_get(js_set(ms, n, v), n) == v by { lemma_js_set(ms, n, v); }
    assert forall|v: Js, w: Js| #[trigger] js_set(js_set(ms, n, v), n, w) == js_set(ms, n, w) by { lemma_js_set(ms, n, v); }
}
pub proof fn lemma_rec_names(m: Seq<(Str, Str)>)
    ensures forall|i: int, j: int| 0 <= i < j < rec_names(m).len() ==> rec_names(m)[i] != rec_names(m)[j],
        forall|n: Str| #[trigger] rec_names(m).contains(n) <==> rec_vals(m, n).len() > 0,
        forall|n: Str, i: int| 0 <= i < rec_vals(m, n).len() ==> (#[trigger] rec_vals(m, n)[i]) is Str
    decreases m.len()
{
    if m.len() > 0 {
        let p = m.drop_last();
        lemma_rec_names(p);
        let k = rec_names(p);
        let n = m.last().0;
        assert(k.push(n).contains(n)) by { assert(k.push(n)[k.len() as int] == n); }
        assert forall|x: Str| k.contains(x) implies #[trigger] k.push(n).contains(x) by { let i = k.index_of(x); assert(k.push(n)[i] == x); }
        assert forall|x: Str| #[trigger] k.push(n).contains(x) implies k.contains(x) || x == n by { let i = k.push(n).index_of(x); if i < k.len() { assert(k[i] == x); } }
        assert forall|x: Str| #[trigger] rec_names(m).contains(x) <==> rec_vals(m, x).len() > 0 by {
            assert(k.contains(x) <==> rec_vals(p, x).len() > 0);
        }
        assert forall|i: int, j: int| 0 <= i < j < rec_names(m).len() implies rec_names(m)[i] != rec_names(m)[j] by {
            if !k.contains(n) && j == k.len() { assert(k.contains(k[i])); }
        }
        assert forall|x: Str, i: int| 0 <= i < rec_vals(m, x).len() implies (#[trigger] rec_vals(m, x)[i]) is Str by {
            let r = rec_vals(p, x);
            if i < r.len() { assert(rec_vals(m, x)[i] == r[i]); assert(r[i] is Str); }
        }
    }
}
/// where a name stands in the object of a record
pub proof fn lemma_rec_at(m: Seq<(Str, Str)>, n: Str)
    ensures js_has(rec_json(m), n) <==> rec_names(m).contains(n), js_has(rec_json(m), n) ==> js_get(rec_json(m), n) == rec_val(m, n)
{
    let o = rec_json(m);
    lemma_rec_names(m);
    lemma_js_find(o, n, 0);
    if rec_names(m).contains(n) { let i = rec_names(m).index_of(n); assert(o[i].0 == n); }
    if js_has(o, n) { let f = js_find(o, n, 0); assert(rec_names(m)[f] == n); }
}
/// what the next pair of the record does to its object
pub proof fn lemma_rec_step(m: Seq<(Str, Str)>, i: int)
    requires 0 <= i < m.len()
    ensures ({
        let o = rec_json(m.subrange(0, i)); let r = rec_json(m.subrange(0, i + 1)); let n = m[i].0; let v = Js::Str(m[i].1);
        &&& !js_has(o, n) ==> r == o.push((n, v))
        &&& js_has(o, n) ==> (js_get(o, n) is Str || js_get(o, n) is Arr)
        &&& js_has(o, n) && js_get(o, n) is Arr ==> r == js_set(o, n, Js::Arr(js_items(js_get(o, n)).push(v)))
        &&& js_has(o, n) && js_get(o, n) is Str ==> r == js_set(o, n, Js::Arr(Seq::<Js>::empty().push(js_get(o, n)).push(v)))
    })
{
    let p = m.subrange(0, i); let q = m.subrange(0, i + 1);
    let n = m[i].0; let v = Js::Str(m[i].1);
    assert(q.drop_last() =~= p); assert(q.last() == m[i]);
    let o = rec_json(p); let r = rec_json(q);
    lemma_rec_names(p); lemma_rec_names(q); lemma_rec_at(p, n);
    lemma_js_find(o, n, 0);
    let k = rec_names(p);
    assert forall|x: Str| x != n implies #[trigger] rec_vals(q, x) == rec_vals(p, x) by {}
    assert(rec_vals(q, n) == rec_vals(p, n).push(v));
    if !js_has(o, n) {
        assert(rec_names(q) == k.push(n));
        assert(rec_vals(p, n).len() == 0);
        assert(rec_val(q, n) == v);
        assert forall|j: int| 0 <= j < k.len() implies #[trigger] r[j] == o[j] by { assert(k.contains(k[j])); assert(k[j] != n); assert(rec_vals(q, k[j]) == rec_vals(p, k[j])); }
        assert(r =~= o.push((n, v)));
    } else {
        let f = js_find(o, n, 0);
        assert(rec_names(q) == k);
        assert(k[f] == n);
        let old = rec_vals(p, n);
        assert(old.len() > 0);
        if old.len() == 1 { assert(old[0] is Str); assert(old.push(v) =~= Seq::<Js>::empty().push(old[0]).push(v)); }
        let w = rec_val(q, n);
        assert(w == Js::Arr(old.push(v)));
        assert forall|j: int| 0 <= j < k.len() && j != f implies #[trigger] r[j] == o[j] by { if j < f { assert(k[j] != k[f]); } else { assert(k[f] != k[j]); } assert(rec_vals(q, k[j]) == rec_vals(p, k[j])); }
        assert(r =~= js_set(o, n, w));
    }
}
} }
pub use json_lemmas::*;
