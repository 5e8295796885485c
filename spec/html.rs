// ---------------------------------------------------------------- document handles (C23)
/// a parse result: none, or the one with a given identity
#[verifier::ext_equal]
pub enum OutP { Null, Out(int) }
#[verifier::ext_equal]
pub struct HtmlV { pub outp: OutP }
/// the bytes a parse result was made from
pub uninterp spec fn out_source(o: OutP) -> Str;
pub uninterp spec fn raw_out_root(o: OutP) -> NodeP;
/// the root of the document that a parse result holds
pub open spec fn out_root(o: OutP) -> NodeP { if n_ok(raw_out_root(o)) && !(raw_out_root(o) is Null) { raw_out_root(o) } else { match o { OutP::Out(i) => NodeP::Root(i), OutP::Null => NodeP::Root(0) } } }
/// the document a text denotes
pub uninterp spec fn doc_of(t: Str) -> NodeP;
/// the document a handle gives access to (null for an empty handle)
pub open spec fn html_root(o: OutP) -> NodeP { if o is Null { NodeP::Null } else { out_root(o) } }
/// a handle is empty or owns a parse result that exists
pub open spec fn handle_ok(o: OutP, alive: Set<int>) -> bool { o is Null || alive.contains(o->Out_0) }
pub open spec fn distinct(a: OutP, b: OutP) -> bool { a is Null || b is Null || a->Out_0 != b->Out_0 }
pub open spec fn minus(alive: Set<int>, o: OutP) -> Set<int> { if o is Null { alive } else { alive.remove(o->Out_0) } }
/// a move assignment hands `other`'s document to `this`; the document `this` owned is released at once or handed to `other`
pub open spec fn moved_to(this_: OutP, other: OutP, alive: Set<int>, this2: OutP, other2: OutP, alive2: Set<int>) -> bool
{ this2 == other && ((other2 is Null && alive2 =~= minus(alive, this_)) || (other2 == this_ && alive2 =~= alive)) }
/// assigning a handle to itself keeps its document or releases it and leaves the handle empty
pub open spec fn moved_to_self(this_: OutP, alive: Set<int>, this2: OutP, alive2: Set<int>) -> bool
{ (this2 == this_ && alive2 =~= alive) || (this2 is Null && alive2 =~= minus(alive, this_)) }

// the whole program: handles h live in `hs`; each existing parse result is owned by exactly one of them
pub open spec fn owned_once(hs: Map<int, OutP>, alive: Set<int>) -> bool
{
    &&& forall|h: int| #[trigger] hs.dom().contains(h) ==> handle_ok(hs[h], alive)
    &&& forall|g: int, h: int| #[trigger] hs.dom().contains(g) && #[trigger] hs.dom().contains(h) && g != h ==> distinct(hs[g], hs[h])
    &&& forall|i: int| #[trigger] alive.contains(i) ==> exists|h: int| #[trigger] hs.dom().contains(h) && hs[h] == OutP::Out(i)
}
/// parsing a document into a new handle
pub proof fn history_construct(hs: Map<int, OutP>, alive: Set<int>, h: int, i: int)
    requires owned_once(hs, alive), !hs.dom().contains(h), !alive.contains(i),
    ensures owned_once(hs.insert(h, OutP::Out(i)), alive.insert(i)),
{
    let hs2 = hs.insert(h, OutP::Out(i));
    assert forall|j: int| #[trigger] alive.insert(i).contains(j) implies exists|g: int| #[trigger] hs2.dom().contains(g) && hs2[g] == OutP::Out(j) by {
        if j == i { assert(hs2.dom().contains(h) && hs2[h] == OutP::Out(i)); }
        else { let g = choose|g: int| #[trigger] hs.dom().contains(g) && hs[g] == OutP::Out(j); assert(hs2.dom().contains(g) && hs2[g] == OutP::Out(j)); }
    }
}
/// move construction of handle h from handle g
pub proof fn history_move_construct(hs: Map<int, OutP>, alive: Set<int>, h: int, g: int)
    requires owned_once(hs, alive), !hs.dom().contains(h), hs.dom().contains(g),
    ensures owned_once(hs.insert(g, OutP::Null).insert(h, hs[g]), alive),
{
    let hs2 = hs.insert(g, OutP::Null).insert(h, hs[g]);
    assert forall|j: int| #[trigger] alive.contains(j) implies exists|k: int| #[trigger] hs2.dom().contains(k) && hs2[k] == OutP::Out(j) by {
        let k = choose|k: int| #[trigger] hs.dom().contains(k) && hs[k] == OutP::Out(j);
        if k == g { assert(hs2.dom().contains(h) && hs2[h] == OutP::Out(j)); } else { assert(hs2.dom().contains(k) && hs2[k] == OutP::Out(j)); }
    }
}
/// move assignment between two handles
pub proof fn history_move_assign(hs: Map<int, OutP>, alive: Set<int>, h: int, g: int, h2: OutP, g2: OutP, alive2: Set<int>)
    requires owned_once(hs, alive), hs.dom().contains(h), hs.dom().contains(g), h != g, moved_to(hs[h], hs[g], alive, h2, g2, alive2),
    ensures owned_once(hs.insert(h, h2).insert(g, g2), alive2),
{
    let hs2 = hs.insert(h, h2).insert(g, g2);
    assert forall|j: int| #[trigger] alive2.contains(j) implies exists|k: int| #[trigger] hs2.dom().contains(k) && hs2[k] == OutP::Out(j) by {
        let k = choose|k: int| #[trigger] hs.dom().contains(k) && hs[k] == OutP::Out(j);
        if k == g { assert(hs2.dom().contains(h) && hs2[h] == OutP::Out(j)); }
        else if k == h { assert(hs2.dom().contains(g) && hs2[g] == OutP::Out(j)); }
        else { assert(hs2.dom().contains(k) && hs2[k] == OutP::Out(j)); }
    }
    assert forall|k: int| #[trigger] hs2.dom().contains(k) implies handle_ok(hs2[k], alive2) by {
        assert(hs.dom().contains(k) && handle_ok(hs[k], alive));
        assert(distinct(hs[g], hs[h]));
        if k != h && k != g { assert(distinct(hs[k], hs[h])); }
    }
    assert forall|a: int, b: int| #[trigger] hs2.dom().contains(a) && #[trigger] hs2.dom().contains(b) && a != b implies distinct(hs2[a], hs2[b]) by {
        assert(hs.dom().contains(a) && hs.dom().contains(b));
        let a0 = if a == h { g } else if a == g { h } else { a };
        let b0 = if b == h { g } else if b == g { h } else { b };
        assert(distinct(hs[a0], hs[b0]));
    }
}
/// assignment of a handle to itself
pub proof fn history_self_assign(hs: Map<int, OutP>, alive: Set<int>, h: int, h2: OutP, alive2: Set<int>)
    requires owned_once(hs, alive), hs.dom().contains(h), moved_to_self(hs[h], alive, h2, alive2),
    ensures owned_once(hs.insert(h, h2), alive2),
{
    let hs2 = hs.insert(h, h2);
    assert forall|j: int| #[trigger] alive2.contains(j) implies exists|k: int| #[trigger] hs2.dom().contains(k) && hs2[k] == OutP::Out(j) by {
        let k = choose|k: int| #[trigger] hs.dom().contains(k) && hs[k] == OutP::Out(j);
        assert(hs2.dom().contains(k) && hs2[k] == OutP::Out(j));
    }
    assert forall|k: int| #[trigger] hs2.dom().contains(k) implies handle_ok(hs2[k], alive2) by {
        assert(hs.dom().contains(k) && handle_ok(hs[k], alive));
        if k != h { assert(distinct(hs[k], hs[h])); }
    }
    assert forall|a: int, b: int| #[trigger] hs2.dom().contains(a) && #[trigger] hs2.dom().contains(b) && a != b implies distinct(hs2[a], hs2[b]) by {
        assert(hs.dom().contains(a) && hs.dom().contains(b)); assert(distinct(hs[a], hs[b]));
    }
}
/// end of a handle's life
pub proof fn history_destroy(hs: Map<int, OutP>, alive: Set<int>, h: int)
    requires owned_once(hs, alive), hs.dom().contains(h),
    ensures owned_once(hs.remove(h), minus(alive, hs[h])),
{
    let hs2 = hs.remove(h);
    let alive2 = minus(alive, hs[h]);
    assert forall|j: int| #[trigger] alive2.contains(j) implies exists|k: int| #[trigger] hs2.dom().contains(k) && hs2[k] == OutP::Out(j) by {
        let k = choose|k: int| #[trigger] hs.dom().contains(k) && hs[k] == OutP::Out(j);
        assert(hs2.dom().contains(k) && hs2[k] == OutP::Out(j));
    }
    assert forall|k: int| #[trigger] hs2.dom().contains(k) implies handle_ok(hs2[k], alive2) by {
        assert(hs.dom().contains(k) && handle_ok(hs[k], alive)); assert(distinct(hs[k], hs[h]));
    }
    assert forall|a: int, b: int| #[trigger] hs2.dom().contains(a) && #[trigger] hs2.dom().contains(b) && a != b implies distinct(hs2[a], hs2[b]) by {
        assert(hs.dom().contains(a) && hs.dom().contains(b)); assert(distinct(hs[a], hs[b]));
    }
}
/// when the last handle is gone nothing is left: no parse result leaks
pub proof fn history_end(hs: Map<int, OutP>, alive: Set<int>)
    requires owned_once(hs, alive), hs.dom() =~= Set::<int>::empty(),
    ensures alive =~= Set::<int>::empty(),
{
    assert forall|j: int| !#[trigger] alive.contains(j) by {
        if alive.contains(j) { let k = choose|k: int| #[trigger] hs.dom().contains(k) && hs[k] == OutP::Out(j); assert(hs.dom().contains(k)); }
    }
}
