// ---------------------------------------------------------------- the documented search (C01, C02, C03)
// Pure functions of (rule, document).  `cost` counts the sibling lists searched.
pub type Pairs = Seq<(RuleP, NodeP)>;
#[verifier::ext_equal]
pub struct BR { pub ok: bool, pub out: Pairs, pub cost: nat }
#[verifier::ext_equal]
pub struct MR { pub node: NodeP, pub out: Pairs, pub cost: nat }
#[verifier::ext_equal]
pub struct SR { pub groups: Seq<Pairs>, pub cost: nat }
/// siblings from n on (0 for none)
pub open spec fn n_rest(n: NodeP) -> int
{ match n { NodeP::Null => 0, NodeP::Kid(p, i) => if i < n_nkids(*p) { n_nkids(*p) - i } else { 1 }, _ => 1 } }
/// n, which always is a later sibling than m (lemmas below); written this way so that the search visibly terminates
pub open spec fn later(n: NodeP, m: NodeP) -> NodeP { if n_rest(n) < n_rest(m) { n } else { NodeP::Null } }
/// rules from p on in its sequence
pub open spec fn r_rest(p: RuleP) -> int { if p is Null { 0 } else if r_pos(p) <= RL() { RL() - r_pos(p) + 1 } else { 1 } }
/// the first mandatory rule in [b, e), e if there is none
pub open spec fn find_mand(b: RuleP, e: RuleP) -> RuleP decreases r_rest(b)
{ if b is Null || b == e { e } else if !r_is_optional(b) { b } else { find_mand(r_next(b), e) } }
/// remaining searches after `cost` more (0: unlimited)
pub open spec fn left(m: int, cost: nat) -> int { if m == 0 { 0 } else { m - cost } }
pub open spec fn exhausted(m: int, cost: nat) -> bool { m != 0 && cost >= m }

/// rule (without its siblings) accepts node: own conditions, then child rules, then nested rules
#[verifier::opaque]
pub open spec fn rm(rule: RuleP, node: NodeP) -> BR decreases r_ht(rule), 1int, 0int, 0int, 0int
{
    if rule is Null || node is Null || !rule_accepts(rule, node) { BR { ok: false, out: Seq::empty(), cost: 0 } }
    else if r_child(rule) is Null && r_nnested(rule) == 0 { BR { ok: true, out: Seq::empty(), cost: 0 } }
    else if !is_el(node) || n_nkids(node) == 0 { BR { ok: false, out: Seq::empty(), cost: 0 } }
    else {
        let first = n_kid(node, 0);
        let c = if r_child(rule) is Null { BR { ok: true, out: Seq::empty(), cost: 0 } } else { runs(r_child(rule), first) };
        if !c.ok { BR { ok: false, out: Seq::empty(), cost: c.cost } }
        else {
            let n = nests(rule, first, r_nnested(rule) as int);
            if n.ok { BR { ok: true, out: c.out + n.out, cost: c.cost + n.cost } } else { BR { ok: false, out: Seq::empty(), cost: c.cost + n.cost } }
        }
    }
}
/// all groups of a child rule sequence among the siblings from node on; ok if there is one or none is required
#[verifier::opaque]
pub open spec fn runs(rule: RuleP, node: NodeP) -> BR decreases r_ht(rule), 6int, 0int, 0int, n_rest(node)
{
    if node is Null { BR { ok: false, out: Seq::empty(), cost: 0 } }
    else {
        let g = group(rule, node);
        let r = runs(rule, later(g.node, node));
        BR { ok: g.out.len() > 0 || find_mand(rule, RuleP::Null) is Null || r.ok, out: g.out + r.out, cost: g.cost + r.cost }
    }
}
/// the first i nested rules, each searched anywhere below
#[verifier::opaque]
pub open spec fn nests(rule: RuleP, first: NodeP, i: int) -> BR decreases r_ht(rule), 0int, 0int, 0int, i
{
    if i <= 0 || r_nnested(rule) == 0 { BR { ok: true, out: Seq::empty(), cost: 0 } }
    else {
        let p = nests(rule, first, i - 1);
        let nr = r_nest(rule, i - 1);
        if !p.ok { p }
        else {
            let s = save(nr, first);
            if s.groups.len() == 0 && !(find_mand(nr, RuleP::Null) is Null) { BR { ok: false, out: Seq::empty(), cost: p.cost + s.cost } }
            else { BR { ok: true, out: p.out + flat(s.groups), cost: p.cost + s.cost } }
        }
    }
}
pub open spec fn flat(g: Seq<Pairs>) -> Pairs decreases g.len()
{ if g.len() == 0 { Seq::empty() } else { flat(g.drop_last()) + g.last() } }
/// the first sibling in [begin, end) that rule accepts
#[verifier::opaque]
pub open spec fn once(rule: RuleP, begin: NodeP, end: NodeP) -> MR decreases r_ht(rule), 2int, 0int, 0int, n_rest(begin)
{
    if begin is Null || begin == end { MR { node: end, out: Seq::empty(), cost: 0 } }
    else {
        let b = rm(rule, begin);
        if b.ok { MR { node: begin, out: b.out, cost: b.cost } }
        else { let r = once(rule, next_node(begin), end); MR { node: r.node, out: r.out, cost: b.cost + r.cost } }
    }
}
pub open spec fn hit(o: MR, end: NodeP) -> bool { !(o.node is Null) && o.node != end }
/// the rules [rb, re) in turn, each at the next match in [nb, ne) (repeatedly if greedy)
#[verifier::opaque]
pub open spec fn range(rb: RuleP, re: RuleP, nb: NodeP, ne: NodeP, last: NodeP) -> MR decreases r_ht(rb), 3int, 0int, n_rest(nb), r_rest(rb)
{
    if rb is Null || rb == re { MR { node: last, out: Seq::empty(), cost: 0 } }
    else {
        let o = once(rb, nb, ne);
        if !(nb is Null) && hit(o, ne) {
            let r = range(if r_is_greedy(rb) { rb } else { r_next(rb) }, re, later(next_node(o.node), nb), ne, o.node);
            MR { node: r.node, out: o.out.push((rb, o.node)) + r.out, cost: o.cost + r.cost }
        } else {
            let r = range(r_next(rb), re, nb, ne, o.node);
            MR { node: r.node, out: o.out + r.out, cost: o.cost + r.cost }
        }
    }
}
/// a greedy rule that has just matched
pub open spec fn satiable(rule: RuleP, sub: Pairs) -> bool { !(rule is Null) && r_is_greedy(rule) && sub.len() > 0 && sub.last().0 == rule }
pub open spec fn skip_optional(rule: RuleP) -> RuleP decreases r_rest(rule)
{ if !(rule is Null) && r_is_optional(rule) { skip_optional(r_next(rule)) } else { rule } }
/// skipping optional rules leads to the next mandatory one
pub proof fn lemma_skip_one(b: RuleP) ensures skip_optional(b) == find_mand(b, RuleP::Null) decreases r_rest(b)
{ if !(b is Null) && r_is_optional(b) { lemma_next_rule(b); lemma_skip_one(r_next(b)); } }
pub proof fn lemma_skip_all() ensures forall|b: RuleP| #[trigger] find_mand(b, RuleP::Null) == skip_optional(b)
{ assert forall|b: RuleP| #[trigger] find_mand(b, RuleP::Null) == skip_optional(b) by { lemma_skip_one(b); } }
/// the mandatory rule up to which an optional (or repeating) rule may match
pub open spec fn stop_rule(first: RuleP, rule: RuleP) -> RuleP
{
    let s = find_mand(r_next(rule), RuleP::Null);
    if !(s is Null) { s } else { let w = find_mand(first, rule); if w == rule { RuleP::Null } else { w } }
}
pub open spec fn stop_wraps(rule: RuleP) -> bool { find_mand(r_next(rule), RuleP::Null) is Null }
/// one group: `sub` is what has been matched so far; the group is empty unless every mandatory rule has matched
#[verifier::opaque]
pub open spec fn group_loop(first: RuleP, rule: RuleP, node: NodeP, sub: Pairs) -> MR
    decreases r_ht(first), 4int, 0int, 0int, n_rest(node)
    when r_ht(rule) <= r_ht(first)
    via group_loop_dec
{
    if rule is Null || node is Null {
        let r = skip_optional(if satiable(rule, sub) { r_next(rule) } else { rule });
        if r is Null { MR { node: node, out: sub, cost: 0 } } else { MR { node: NodeP::Null, out: Seq::empty(), cost: 0 } }
    } else if r_is_optional(rule) || satiable(rule, sub) {
        let stop = stop_rule(first, rule);
        if stop is Null {
            let r = range(rule, RuleP::Null, node, NodeP::Null, NodeP::Null);
            MR { node: next_node(r.node), out: sub + r.out, cost: r.cost }
        } else if stop_wraps(rule) {
            let s = once(stop, node, NodeP::Null);
            let r = range(rule, RuleP::Null, node, s.node, s.node);
            MR { node: s.node, out: sub + r.out, cost: s.cost + r.cost }
        } else {
            let s = once(stop, node, NodeP::Null);
            if s.node is Null { MR { node: NodeP::Null, out: Seq::empty(), cost: s.cost } }
            else {
                let r = range(rule, stop, node, s.node, s.node);
                let g = group_loop(first, r_next(stop), later(next_node(s.node), node), (sub + s.out + r.out).push((stop, s.node)));
                MR { node: g.node, out: g.out, cost: s.cost + r.cost + g.cost }
            }
        }
    } else {
        let o = once(rule, node, NodeP::Null);
        if o.node is Null { MR { node: NodeP::Null, out: Seq::empty(), cost: o.cost } }
        else {
            let g = group_loop(first, if r_is_greedy(rule) { rule } else { r_next(rule) }, later(next_node(o.node), node), (sub + o.out).push((rule, o.node)));
            MR { node: g.node, out: g.out, cost: o.cost + g.cost }
        }
    }
}
#[verifier::opaque]
pub open spec fn group(rule: RuleP, node: NodeP) -> MR decreases r_ht(rule), 5int, 0int, 0int, 0int
{ if rule is Null || node is Null { MR { node: NodeP::Null, out: Seq::empty(), cost: 0 } } else { group_loop(rule, rule, node, Seq::empty()) } }
/// all groups among the siblings from node on
#[verifier::opaque]
pub open spec fn list_groups(rule: RuleP, node: NodeP) -> SR decreases r_ht(rule), 6int, 0int, 0int, n_rest(node)
{
    if node is Null { SR { groups: Seq::empty(), cost: 0 } }
    else {
        let g = group(rule, node);
        let r = list_groups(rule, later(g.node, node));
        SR { groups: (if g.out.len() > 0 { seq![g.out] } else { Seq::empty() }) + r.groups, cost: g.cost + r.cost }
    }
}
/// the children lists of node and of its following siblings
#[verifier::opaque]
pub open spec fn list_below(rule: RuleP, node: NodeP) -> SR decreases r_ht(rule), 7int, n_ht(node), 0int, n_rest(node)
{
    if node is Null { SR { groups: Seq::empty(), cost: 0 } }
    else {
        let d = if is_el(node) && n_nkids(node) > 0 { save(rule, n_kid(node, 0)) } else { SR { groups: Seq::empty(), cost: 0 } };
        let r = list_below(rule, next_node(node));
        SR { groups: d.groups + r.groups, cost: d.cost + r.cost }
    }
}
/// the search of one sibling list and everything below it
#[verifier::opaque]
pub open spec fn save(rule: RuleP, node: NodeP) -> SR decreases r_ht(rule), 7int, n_ht(node), 1int, 0int
{
    let a = list_groups(rule, node);
    let b = list_below(rule, node);
    SR { groups: a.groups + b.groups, cost: 1 + a.cost + b.cost }
}
#[via_fn]
proof fn group_loop_dec(first: RuleP, rule: RuleP, node: NodeP, sub: Pairs)
{ lemma_stop(first, rule); lemma_next_rule(rule); lemma_next_rule(stop_rule(first, rule)); }
pub proof fn lemma_next_rule(p: RuleP) ensures !(r_next(p) is Null) ==> r_ht(r_next(p)) == r_ht(p) {}
pub proof fn lemma_find(b: RuleP, e: RuleP)
    ensures find_mand(b, e) == e || (!(find_mand(b, e) is Null) && r_ht(find_mand(b, e)) == r_ht(b) && !r_is_optional(find_mand(b, e)))
    decreases r_rest(b)
{ if b is Null || b == e { } else if r_is_optional(b) { lemma_find(r_next(b), e); } }
pub proof fn lemma_stop(first: RuleP, rule: RuleP)
    requires r_ht(rule) <= r_ht(first)
    ensures r_ht(stop_rule(first, rule)) <= r_ht(first)
{ lemma_find(r_next(rule), RuleP::Null); lemma_find(first, rule); }
pub mod matching_lemmas { use super::*; verus! {
// ---------------------------------------------------------------- progress: results lie among the following siblings
pub proof fn lemma_next(n: NodeP) ensures n_rest(n) >= 0, n_ok(n) ==> n_ok(next_node(n)), !(n is Null) ==> n_rest(next_node(n)) < n_rest(n), n_rest(n) == 0 <==> n is Null
{ reveal_with_fuel(n_ok, 3); }
pub open spec fn within(n: NodeP, m: NodeP) -> bool { !(n is Null) && n_rest(n) <= n_rest(m) && (n_ok(m) ==> n_ok(n)) }
pub proof fn lemma_once(rule: RuleP, b: NodeP, e: NodeP)
    ensures once(rule, b, e).node == e || within(once(rule, b, e).node, b)
    decreases n_rest(b)
{
    def_once(rule, b, e); lemma_next(b);
    if b is Null || b == e { } else if rm(rule, b).ok { assert(once(rule, b, e).node == b); }
    else { lemma_once(rule, next_node(b), e); assert(once(rule, b, e).node == once(rule, next_node(b), e).node); }
}
pub proof fn lemma_range(rb: RuleP, re: RuleP, nb: NodeP, ne: NodeP, last: NodeP)
    ensures range(rb, re, nb, ne, last).node == last || range(rb, re, nb, ne, last).node == ne || within(range(rb, re, nb, ne, last).node, nb)
    decreases n_rest(nb), r_rest(rb)
{
    def_range(rb, re, nb, ne, last);
    lemma_next(nb); lemma_once(rb, nb, ne);
    if rb is Null || rb == re { } else {
        let o = once(rb, nb, ne);
        lemma_next(o.node);
        if !(nb is Null) && hit(o, ne) { let nn = later(next_node(o.node), nb); let rr = if r_is_greedy(rb) { rb } else { r_next(rb) }; lemma_next(nn); lemma_range(rr, re, nn, ne, o.node); assert(range(rb, re, nb, ne, last).node == range(rr, re, nn, ne, o.node).node); }
        else { lemma_range(r_next(rb), re, nb, ne, o.node); assert(range(rb, re, nb, ne, last).node == range(r_next(rb), re, nb, ne, o.node).node); }
    }
}
pub proof fn lemma_group_loop(first: RuleP, rule: RuleP, node: NodeP, sub: Pairs)
    requires r_ht(rule) <= r_ht(first)
    ensures group_loop(first, rule, node, sub).node is Null || within(group_loop(first, rule, node, sub).node, node)
    decreases n_rest(node)
{
    def_group_loop(first, rule, node, sub);
    lemma_next(node); lemma_stop(first, rule); lemma_next_rule(rule); lemma_next_rule(stop_rule(first, rule));
    if rule is Null || node is Null { }
    else if r_is_optional(rule) || satiable(rule, sub) {
        let stop = stop_rule(first, rule);
        lemma_once(stop, node, NodeP::Null);
        let s = once(stop, node, NodeP::Null);
        lemma_next(s.node);
        if stop is Null { lemma_range(rule, RuleP::Null, node, NodeP::Null, NodeP::Null); let rn = range(rule, RuleP::Null, node, NodeP::Null, NodeP::Null).node; lemma_next(rn); assert(group_loop(first, rule, node, sub).node == next_node(rn)); }
        else if stop_wraps(rule) { assert(group_loop(first, rule, node, sub).node == s.node); }
        else if s.node is Null { }
        else { let r = range(rule, stop, node, s.node, s.node); let u = (sub + s.out + r.out).push((stop, s.node)); let nn = later(next_node(s.node), node); lemma_group_loop(first, r_next(stop), nn, u); assert(group_loop(first, rule, node, sub).node == group_loop(first, r_next(stop), nn, u).node); }
    } else {
        let o = once(rule, node, NodeP::Null);
        lemma_once(rule, node, NodeP::Null);
        lemma_next(o.node);
        if !(o.node is Null) { let rr = if r_is_greedy(rule) { rule } else { r_next(rule) }; let u = (sub + o.out).push((rule, o.node)); let nn = later(next_node(o.node), node); lemma_group_loop(first, rr, nn, u); assert(group_loop(first, rule, node, sub).node == group_loop(first, rr, nn, u).node); }
    }
}
/// find_mand(first, rule) is `rule` exactly when nothing mandatory lies before it: only then can the group not have advanced
pub proof fn lemma_group(rule: RuleP, node: NodeP)
    ensures group(rule, node).node is Null || (within(group(rule, node).node, node) && n_rest(group(rule, node).node) < n_rest(node))
{
    let sub = Seq::<(RuleP, NodeP)>::empty();
    def_group(rule, node); def_group_loop(rule, rule, node, sub);
    lemma_next(node); lemma_next_rule(rule); lemma_stop(rule, rule); lemma_next_rule(stop_rule(rule, rule));
    if !(rule is Null) && !(node is Null) {
        let stop = stop_rule(rule, rule);
        lemma_once(rule, node, NodeP::Null); lemma_once(stop, node, NodeP::Null);
        lemma_next(once(rule, node, NodeP::Null).node); lemma_next(once(stop, node, NodeP::Null).node);
        lemma_find(rule, rule);
        if r_is_optional(rule) || satiable(rule, sub) {
            if stop is Null { lemma_range(rule, RuleP::Null, node, NodeP::Null, NodeP::Null); let rn = range(rule, RuleP::Null, node, NodeP::Null, NodeP::Null).node; lemma_next(rn); assert(group(rule, node).node == next_node(rn)); }
            else if stop_wraps(rule) { assert(find_mand(rule, rule) == rule); }
            else {
                let s = once(stop, node, NodeP::Null);
                if !(s.node is Null) { let r = range(rule, stop, node, s.node, s.node); let nn = later(next_node(s.node), node); let u = (sub + s.out + r.out).push((stop, s.node)); lemma_next(nn); lemma_group_loop(rule, r_next(stop), nn, u); assert(group(rule, node).node == group_loop(rule, r_next(stop), nn, u).node); }
            }
        } else {
            let o = once(rule, node, NodeP::Null);
            if !(o.node is Null) { let nn = later(next_node(o.node), node); let rr = if r_is_greedy(rule) { rule } else { r_next(rule) }; let u = (sub + o.out).push((rule, o.node)); lemma_next(nn); lemma_group_loop(rule, rr, nn, u); assert(group(rule, node).node == group_loop(rule, rr, nn, u).node); }
        }
    }
}
pub proof fn lemma_rm(rule: RuleP, node: NodeP) ensures !rm(rule, node).ok ==> rm(rule, node).out.len() == 0 { def_rm(rule, node); }
pub proof fn lemma_nests(rule: RuleP, first: NodeP, i: int, n: int)
    requires i <= n
    ensures nests(rule, first, i).cost <= nests(rule, first, n).cost, !nests(rule, first, i).ok ==> nests(rule, first, n) == nests(rule, first, i)
    decreases n - i
{ def_nests(rule, first, n); def_nests(rule, first, n - 1); def_nests(rule, first, i); if i < n { lemma_nests(rule, first, i, n - 1); } }

// ---------------------------------------------------------------- C01: every reported pair satisfies its rule
pub open spec fn pair_ok(p: (RuleP, NodeP)) -> bool { !(p.0 is Null) && !(p.1 is Null) && n_ok(p.1) && rm(p.0, p.1).ok }
pub open spec fn all_ok(s: Pairs) -> bool { forall|i: int| 0 <= i < s.len() ==> pair_ok(#[trigger] s[i]) }
pub open spec fn groups_ok(g: Seq<Pairs>) -> bool { forall|i: int| 0 <= i < g.len() ==> all_ok(#[trigger] g[i]) }
pub proof fn lemma_flat_ok(g: Seq<Pairs>) requires groups_ok(g) ensures all_ok(flat(g)) decreases g.len()
{ if g.len() > 0 { let d = g.drop_last(); assert forall|i: int| 0 <= i < d.len() implies all_ok(#[trigger] d[i]) by { assert(all_ok(g[i])); } assert(all_ok(g[g.len() - 1])); lemma_flat_ok(d); } }
pub proof fn sound_rm(rule: RuleP, node: NodeP) requires n_ok(node) ensures all_ok(rm(rule, node).out) decreases r_ht(rule), 1int, 0int, 0int, 0int
{
    def_rm(rule, node);
    if !(rule is Null) && !(node is Null) && is_el(node) && n_nkids(node) > 0 {
        let first = n_kid(node, 0);
        assert(n_ok(first));
        if !(r_child(rule) is Null) { sound_runs(r_child(rule), first); }
        sound_nests(rule, first, r_nnested(rule) as int);
    }
}
pub proof fn sound_runs(rule: RuleP, node: NodeP) requires n_ok(node) ensures all_ok(runs(rule, node).out) decreases r_ht(rule), 6int, 0int, 0int, n_rest(node)
{ def_runs(rule, node); if !(node is Null) { lemma_next(node); lemma_group(rule, node); sound_group(rule, node); sound_runs(rule, later(group(rule, node).node, node)); } }
pub proof fn sound_nests(rule: RuleP, first: NodeP, i: int) requires n_ok(first), !(first is Null), i <= r_nnested(rule) ensures all_ok(nests(rule, first, i).out) decreases r_ht(rule), 0int, 0int, 0int, i
{
    def_nests(rule, first, i);
    if i > 0 && r_nnested(rule) > 0 { sound_nests(rule, first, i - 1); let nr = r_nest(rule, i - 1); sound_save(nr, first); lemma_flat_ok(save(nr, first).groups); }
}
pub proof fn sound_once(rule: RuleP, b: NodeP, e: NodeP)
    requires n_ok(b)
    ensures all_ok(once(rule, b, e).out), once(rule, b, e).node == e || rm(rule, once(rule, b, e).node).ok, once(rule, b, e).node == e || within(once(rule, b, e).node, b)
    decreases r_ht(rule), 2int, 0int, 0int, n_rest(b)
{ def_once(rule, b, e); lemma_next(b); lemma_once(rule, b, e); if !(b is Null) && b != e { sound_rm(rule, b); if !rm(rule, b).ok { sound_once(rule, next_node(b), e); } } }
pub proof fn sound_range(rb: RuleP, re: RuleP, nb: NodeP, ne: NodeP, last: NodeP)
    requires n_ok(nb)
    ensures all_ok(range(rb, re, nb, ne, last).out)
    decreases r_ht(rb), 3int, 0int, n_rest(nb), r_rest(rb)
{
    def_range(rb, re, nb, ne, last);
    if !(rb is Null) && rb != re {
        lemma_next(nb); sound_once(rb, nb, ne);
        let o = once(rb, nb, ne);
        lemma_next(o.node); lemma_next_rule(rb);
        if !(nb is Null) && hit(o, ne) { let nn = later(next_node(o.node), nb); let rr = if r_is_greedy(rb) { rb } else { r_next(rb) }; lemma_next(nn); assert(n_ok(nn)); sound_range(rr, re, nn, ne, o.node); }
        else { sound_range(r_next(rb), re, nb, ne, o.node); }
    }
}
pub proof fn sound_group_loop(first: RuleP, rule: RuleP, node: NodeP, sub: Pairs)
    requires r_ht(rule) <= r_ht(first), n_ok(node), all_ok(sub)
    ensures all_ok(group_loop(first, rule, node, sub).out)
    decreases r_ht(first), 4int, 0int, 0int, n_rest(node)
{
    def_group_loop(first, rule, node, sub);
    lemma_next(node); lemma_stop(first, rule); lemma_next_rule(rule); lemma_next_rule(stop_rule(first, rule));
    if rule is Null || node is Null { }
    else if r_is_optional(rule) || satiable(rule, sub) {
        let stop = stop_rule(first, rule);
        if stop is Null { sound_range(rule, RuleP::Null, node, NodeP::Null, NodeP::Null); }
        else {
            sound_once(stop, node, NodeP::Null);
            let s = once(stop, node, NodeP::Null);
            lemma_next(s.node);
            if stop_wraps(rule) { sound_range(rule, RuleP::Null, node, s.node, s.node); }
            else if !(s.node is Null) {
                let r = range(rule, stop, node, s.node, s.node);
                sound_range(rule, stop, node, s.node, s.node);
                let nn = later(next_node(s.node), node); assert(n_ok(nn));
                sound_group_loop(first, r_next(stop), nn, (sub + s.out + r.out).push((stop, s.node)));
            }
        }
    } else {
        sound_once(rule, node, NodeP::Null);
        let o = once(rule, node, NodeP::Null);
        lemma_next(o.node);
        if !(o.node is Null) { let rr = if r_is_greedy(rule) { rule } else { r_next(rule) }; let nn = later(next_node(o.node), node); assert(n_ok(nn)); sound_group_loop(first, rr, nn, (sub + o.out).push((rule, o.node))); }
    }
}
pub proof fn sound_group(rule: RuleP, node: NodeP) requires n_ok(node) ensures all_ok(group(rule, node).out) decreases r_ht(rule), 5int, 0int, 0int, 0int
{ def_group(rule, node); if !(rule is Null) && !(node is Null) { sound_group_loop(rule, rule, node, Seq::empty()); } }
pub proof fn sound_list_groups(rule: RuleP, node: NodeP) requires n_ok(node) ensures groups_ok(list_groups(rule, node).groups) decreases r_ht(rule), 6int, 0int, 0int, n_rest(node)
{ def_list_groups(rule, node); if !(node is Null) { lemma_next(node); lemma_group(rule, node); sound_group(rule, node); sound_list_groups(rule, later(group(rule, node).node, node)); } }
pub proof fn sound_list_below(rule: RuleP, node: NodeP) requires n_ok(node) ensures groups_ok(list_below(rule, node).groups) decreases r_ht(rule), 7int, n_ht(node), 0int, n_rest(node)
{
    def_list_below(rule, node);
    if !(node is Null) { lemma_next(node); if is_el(node) && n_nkids(node) > 0 { assert(n_ok(n_kid(node, 0))); sound_save(rule, n_kid(node, 0)); } sound_list_below(rule, next_node(node)); }
}
/// C01: every pair reported by a search satisfies its rule: own conditions, child rules and nested rules
pub proof fn sound_save(rule: RuleP, node: NodeP) requires n_ok(node) ensures groups_ok(save(rule, node).groups) decreases r_ht(rule), 7int, n_ht(node), 1int, 0int
{ def_save(rule, node); sound_list_groups(rule, node); sound_list_below(rule, node); }
/// C01: what it means for a rule to accept an element
pub proof fn theorem_accept(rule: RuleP, node: NodeP)
    requires rm(rule, node).ok
    ensures rule_accepts(rule, node), !(node is Null),
        !(r_child(rule) is Null) ==> is_el(node) && n_nkids(node) > 0 && (find_mand(r_child(rule), RuleP::Null) is Null || some_group(r_child(rule), n_kid(node, 0))),
        forall|i: int| 0 <= i < r_nnested(rule) ==> is_el(node) && n_nkids(node) > 0 && nest_ok(rule, n_kid(node, 0), i),
{
    def_rm(rule, node);
    let first = n_kid(node, 0);
    if !(r_child(rule) is Null) { lemma_runs_ok(r_child(rule), first); }
    if r_nnested(rule) > 0 { lemma_nests_ok(rule, first, r_nnested(rule) as int); }
}
/// a complete group starts somewhere among the siblings from node on
pub open spec fn some_group(rule: RuleP, node: NodeP) -> bool decreases n_rest(node)
{ !(node is Null) && (group(rule, node).out.len() > 0 || some_group(rule, later(group(rule, node).node, node))) }
pub open spec fn nest_ok(rule: RuleP, first: NodeP, i: int) -> bool { find_mand(r_nest(rule, i), RuleP::Null) is Null || save(r_nest(rule, i), first).groups.len() > 0 }
proof fn lemma_runs_ok(rule: RuleP, node: NodeP) requires runs(rule, node).ok ensures find_mand(rule, RuleP::Null) is Null || some_group(rule, node) decreases n_rest(node)
{ def_runs(rule, node); lemma_next(node); if !(find_mand(rule, RuleP::Null) is Null) && group(rule, node).out.len() == 0 { let nn = later(group(rule, node).node, node); lemma_next(nn); lemma_runs_ok(rule, nn); } }
proof fn lemma_nests_ok(rule: RuleP, first: NodeP, i: int) requires nests(rule, first, i).ok, i <= r_nnested(rule) ensures forall|j: int| 0 <= j < i ==> nest_ok(rule, first, j) decreases i
{ def_nests(rule, first, i); if i > 0 && r_nnested(rule) > 0 { lemma_nests_ok(rule, first, i - 1); assert(nest_ok(rule, first, i - 1)); } }

// ---------------------------------------------------------------- C01: a reported group is complete
pub open spec fn has_rule(out: Pairs, r: RuleP) -> bool { exists|i: int| 0 <= i < out.len() && (#[trigger] out[i]).0 == r }
/// every mandatory rule of [b, e) has a match in out
pub open spec fn covered(b: RuleP, e: RuleP, out: Pairs) -> bool decreases r_rest(b)
{ b is Null || b == e || ((r_is_optional(b) || has_rule(out, b)) && covered(r_next(b), e, out)) }
proof fn lemma_has_more(o: Pairs, x: Pairs, r: RuleP) ensures has_rule(o, r) ==> has_rule(o + x, r), has_rule(x, r) ==> has_rule(o + x, r)
{
    if has_rule(o, r) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == r; assert((o + x)[i].0 == r); }
    if has_rule(x, r) { let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).0 == r; assert((o + x)[i + o.len()].0 == r); }
}
proof fn lemma_cov_more(b: RuleP, e: RuleP, o: Pairs, x: Pairs) requires covered(b, e, o) ensures covered(b, e, o + x) decreases r_rest(b)
{ if !(b is Null) && b != e { lemma_has_more(o, x, b); lemma_cov_more(r_next(b), e, o, x); } }
proof fn lemma_cov_join(b: RuleP, e: RuleP, o: Pairs) requires covered(b, e, o), covered(e, RuleP::Null, o) ensures covered(b, RuleP::Null, o) decreases r_rest(b)
{ if !(b is Null) && b != e { lemma_cov_join(r_next(b), e, o); } }
/// up to the next mandatory rule nothing is mandatory
proof fn lemma_cov_find(b: RuleP, o: Pairs) ensures covered(b, find_mand(b, RuleP::Null), o) decreases r_rest(b)
{ if !(b is Null) && r_is_optional(b) { lemma_cov_find(r_next(b), o); } }
proof fn lemma_cov_skip(b: RuleP, o: Pairs) requires skip_optional(b) is Null ensures covered(b, RuleP::Null, o) decreases r_rest(b)
{ if !(b is Null) { lemma_cov_skip(r_next(b), o); } }
/// extends [first, rule) by rule itself
proof fn lemma_cov_step(first: RuleP, rule: RuleP, o: Pairs)
    requires covered(first, rule, o), rule is Null || r_is_optional(rule) || has_rule(o, rule)
    ensures covered(first, if rule is Null { rule } else { r_next(rule) }, o)
    decreases r_rest(first)
{
    let e = if rule is Null { rule } else { r_next(rule) };
    if first is Null || first == e { } else if first == rule { assert(covered(r_next(first), e, o)); } else { lemma_cov_step(r_next(first), rule, o); }
}
proof fn lemma_cov_trans(a: RuleP, b: RuleP, e: RuleP, o: Pairs)
    requires covered(a, b, o), covered(b, e, o), !(e is Null) ==> reaches(b, e)
    ensures covered(a, e, o)
    decreases r_rest(a)
{
    if a is Null || a == b || a == e { } else { lemma_cov_trans(r_next(a), b, e, o); }
}
pub open spec fn reaches(b: RuleP, e: RuleP) -> bool decreases r_rest(b) { !(b is Null) && (b == e || reaches(r_next(b), e)) }
proof fn lemma_find_reach(b: RuleP) ensures !(find_mand(b, RuleP::Null) is Null) ==> reaches(b, find_mand(b, RuleP::Null)) decreases r_rest(b)
{ if !(b is Null) && r_is_optional(b) { lemma_find_reach(r_next(b)); } }
proof fn lemma_last(o: Pairs, r: RuleP) requires o.len() > 0, o.last().0 == r ensures has_rule(o, r) { assert(o[o.len() - 1].0 == r); }
proof fn complete_group_loop(first: RuleP, rule: RuleP, node: NodeP, sub: Pairs)
    requires r_ht(rule) <= r_ht(first), covered(first, rule, sub)
    ensures group_loop(first, rule, node, sub).out.len() > 0 ==> covered(first, RuleP::Null, group_loop(first, rule, node, sub).out)
    decreases n_rest(node)
{
    def_group_loop(first, rule, node, sub);
    lemma_next(node); lemma_stop(first, rule); lemma_next_rule(rule); lemma_next_rule(stop_rule(first, rule));
    if satiable(rule, sub) { lemma_last(sub, rule); }
    if rule is Null || node is Null {
        let r1 = if satiable(rule, sub) { r_next(rule) } else { rule };
        if skip_optional(r1) is Null { if satiable(rule, sub) { lemma_cov_step(first, rule, sub); } lemma_cov_skip(r1, sub); lemma_cov_join(first, r1, sub); }
    } else if r_is_optional(rule) || satiable(rule, sub) {
        let stop = stop_rule(first, rule);
        let nm = find_mand(r_next(rule), RuleP::Null);
        if nm is Null {
            let r = if stop is Null { range(rule, RuleP::Null, node, NodeP::Null, NodeP::Null) } else { let s = once(stop, node, NodeP::Null); range(rule, RuleP::Null, node, s.node, s.node) };
            lemma_cov_step(first, rule, sub); lemma_cov_more(first, r_next(rule), sub, r.out);
            lemma_cov_find(r_next(rule), sub + r.out); lemma_cov_join(first, r_next(rule), sub + r.out);
        } else {
            let s = once(stop, node, NodeP::Null);
            lemma_once(stop, node, NodeP::Null); lemma_next(s.node);
            if !(s.node is Null) {
                let r = range(rule, stop, node, s.node, s.node);
                let u = (sub + s.out + r.out).push((stop, s.node));
                assert(u =~= sub + (s.out + r.out).push((stop, s.node)));
                lemma_last(u, stop);
                lemma_cov_step(first, rule, sub); lemma_cov_more(first, r_next(rule), sub, (s.out + r.out).push((stop, s.node)));
                lemma_cov_find(r_next(rule), u); lemma_find_reach(r_next(rule)); lemma_cov_trans(first, r_next(rule), stop, u);
                lemma_cov_step(first, stop, u);
                complete_group_loop(first, r_next(stop), later(next_node(s.node), node), u);
            }
        }
    } else {
        let o = once(rule, node, NodeP::Null);
        lemma_once(rule, node, NodeP::Null); lemma_next(o.node);
        if !(o.node is Null) {
            let u = (sub + o.out).push((rule, o.node));
            assert(u =~= sub + o.out.push((rule, o.node)));
            lemma_last(u, rule);
            lemma_cov_more(first, rule, sub, o.out.push((rule, o.node)));
            lemma_cov_step(first, rule, u);
            complete_group_loop(first, if r_is_greedy(rule) { rule } else { r_next(rule) }, later(next_node(o.node), node), u);
        }
    }
}
/// C01: a group that is reported has a match for each mandatory rule of its sequence
pub proof fn theorem_complete(rule: RuleP, node: NodeP)
    ensures group(rule, node).out.len() > 0 ==> covered(rule, RuleP::Null, group(rule, node).out)
{ def_group(rule, node); if !(rule is Null) && !(node is Null) { complete_group_loop(rule, rule, node, Seq::empty()); } }
} }
pub use matching_lemmas::*;

// ---------------------------------------------------------------- C04: what Rule::extract returns
/// the captures of one matched pair (rule nodes without captures contribute nothing)
pub open spec fn pair_caps(p: (RuleP, NodeP)) -> Seq<(Str, Str)>
{ if r_captures(p.0).len() == 0 { Seq::empty() } else { caps(r_captures(p.0), p.1) } }
/// one group: the captures of its pairs in order, in one multimap
pub open spec fn group_map(g: Pairs) -> Seq<(Str, Str)> decreases g.len()
{ if g.len() == 0 { Seq::empty() } else { mm_insert_all(group_map(g.drop_last()), pair_caps(g.last())) } }
/// the groups that captured something, in order
pub open spec fn records(gs: Seq<Pairs>) -> Seq<Seq<(Str, Str)>> decreases gs.len()
{ if gs.len() == 0 { Seq::empty() } else { let r = records(gs.drop_last()); let m = group_map(gs.last()); if m.len() == 0 { r } else { r.push(m) } } }
pub proof fn lemma_take_push<T>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i), s.subrange(0, i + 1).last() == s[i] {}
/// a node whose record would only hold captures that captured nothing adds no record
pub proof fn lemma_mm_len(m: Seq<(Str, Str)>, es: Seq<(Str, Str)>, i: int) requires 0 <= i <= es.len() ensures mm_insert_n(m, es, i).len() == m.len() + i decreases i
{ if i > 0 { lemma_mm_len(m, es, i - 1); let p = mm_insert_n(m, es, i - 1); lemma_mm_upper(p, es[i - 1].0, 0); } }
pub proof fn lemma_mm_upper(m: Seq<(Str, Str)>, key: Str, i: int) requires 0 <= i <= m.len() ensures i <= mm_upper(m, key, i) <= m.len() decreases m.len() - i
{ if i < m.len() && !str_less(key, m[i].0) { lemma_mm_upper(m, key, i + 1); } }
