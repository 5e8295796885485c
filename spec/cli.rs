// ---------------------------------------------------------------- C24: the command line tool
#[verifier::external_body]
#[verifier::ext_equal]
pub struct VmV { x: int }
pub enum OptV { Nothing, Strs(Seq<Str>), Text(Str), Num(u64) }
pub enum OptK { Switch, Strs, Text, Num }
/// a declared option: long name, comma, short name; type of its value; default
#[verifier::ext_equal]
pub struct OptD { pub name: Str, pub kind: OptK, pub dflt: OptV }
#[verifier::ext_equal]
pub struct PoV { pub desc: Seq<OptD>, pub vm: VmV }

/// boost::program_options: a parsed command line
pub uninterp spec fn vm_empty() -> VmV;
pub uninterp spec fn vm_count(vm: VmV, key: Str) -> int;
pub uninterp spec fn vm_dflt(vm: VmV, key: Str) -> bool;
pub uninterp spec fn vm_val(vm: VmV, key: Str) -> OptV;
/// how a command line is read, given the options and the positional names (None: it is refused)
pub uninterp spec fn cmd_parse(desc: Seq<OptD>, pos: Seq<(Str, int)>, args: Seq<CP>) -> Option<VmV>;
pub uninterp spec fn po_error(r: Option<VmV>) -> Str;
pub uninterp spec fn desc_text(desc: Seq<OptD>) -> Str;
/// files
pub uninterp spec fn file_opens(path: Str) -> bool;
pub uninterp spec fn file_breaks(path: Str) -> bool;
pub uninterp spec fn file_text(path: Str) -> Str;
pub uninterp spec fn file_error(path: Str) -> Str;
pub uninterp spec fn is_tty(fd: int) -> int;
pub uninterp spec fn version_text() -> Str;

pub open spec fn dash() -> Str { S!("-") }
pub open spec fn dev_stdin() -> Str { S!("/dev/stdin") }
/// the text of a named input; "-" is the standard input
pub open spec fn real_path(path: Str) -> Str { if !file_opens(path) && path == dash() { dev_stdin() } else { path } }
pub open spec fn readable(path: Str) -> bool { file_opens(real_path(path)) && !file_breaks(real_path(path)) }
pub open spec fn input_text(path: Str) -> Str { file_text(real_path(path)) }

pub open spec fn vm_has(vm: VmV, key: Str) -> bool { vm_count(vm, key) != 0 && !vm_dflt(vm, key) }
pub open spec fn opt(name: Str, kind: OptK, dflt: OptV) -> OptD { OptD { name: name, kind: kind, dflt: dflt } }
pub open spec fn po_desc() -> Seq<OptD>
{ seq![
    opt(S!("hext,x"), OptK::Strs, OptV::Strs(Seq::empty())),
    opt(S!("html,i"), OptK::Strs, OptV::Nothing),
    opt(S!("str,s"), OptK::Strs, OptV::Strs(Seq::empty())),
    opt(S!("compact,c"), OptK::Switch, OptV::Nothing),
    opt(S!("pretty,p"), OptK::Switch, OptV::Nothing),
    opt(S!("array,a"), OptK::Switch, OptV::Nothing),
    opt(S!("filter,f"), OptK::Text, OptV::Nothing),
    opt(S!("lint,l"), OptK::Switch, OptV::Nothing),
    opt(S!("max-searches,m"), OptK::Num, OptV::Num(0)),
    opt(S!("help,h"), OptK::Switch, OptV::Nothing),
    opt(S!("version,V"), OptK::Switch, OptV::Nothing)] }
/// what boost guarantees of a command line it accepted, for the options above: a value has the declared type and
/// an option with a default always has a value
pub open spec fn vm_wf(vm: VmV) -> bool
{
    &&& vm_val(vm, S!("hext")) is Strs && vm_val(vm, S!("str")) is Strs && vm_val(vm, S!("max-searches")) is Num
    &&& vm_has(vm, S!("html")) ==> vm_val(vm, S!("html")) is Strs
    &&& vm_has(vm, S!("filter")) ==> vm_val(vm, S!("filter")) is Text
    &&& !vm_has(vm, S!("hext")) ==> vm_val(vm, S!("hext"))->Strs_0.len() == 0
    &&& !vm_has(vm, S!("str")) ==> vm_val(vm, S!("str"))->Strs_0.len() == 0
    &&& vm_has(vm, S!("hext")) ==> vm_val(vm, S!("hext"))->Strs_0.len() > 0
    &&& vm_has(vm, S!("str")) ==> vm_val(vm, S!("str"))->Strs_0.len() > 0
    &&& !vm_has(vm, S!("max-searches")) ==> vm_val(vm, S!("max-searches"))->Num_0 == 0
}
/// trusted: boost::program_options
#[verifier::external_body]
pub proof fn axiom_cmd_parse(pos: Seq<(Str, int)>, args: Seq<CP>)
    ensures cmd_parse(po_desc(), pos, args) is Some ==> vm_wf(cmd_parse(po_desc(), pos, args)->Some_0)
{}
pub proof fn lemma_arg_index(args: Seq<CP>, s: Str, i: int)
    requires 0 <= i <= args.len()
    ensures i <= arg_index(args, s, i) <= args.len()
    decreases args.len() - i
{ if i < args.len() && cstr(args[i]) != s { lemma_arg_index(args, s, i + 1) } }
pub proof fn lemma_cmd_line(args: Seq<CP>)
    ensures args.subrange(0, args.len() as int) == args, 0 <= arg_index(args, S!("-l"), 0) <= args.len(), 0 <= arg_index(args, S!("--lint"), 0) <= args.len(),
        Seq::<(Str, int)>::empty().push((S!("hext"), 1int)).push((S!("html"), -1int)) == seq![(S!("hext"), 1int), (S!("html"), -1int)]
{
    assert(args.subrange(0, args.len() as int) =~= args);
    lemma_arg_index(args, S!("-l"), 0);
    lemma_arg_index(args, S!("--lint"), 0);
    assert(Seq::<(Str, int)>::empty().push((S!("hext"), 1int)).push((S!("html"), -1int)) =~= seq![(S!("hext"), 1int), (S!("html"), -1int)]);
}
/// the first place of an argument, step by step
pub proof fn lemma_arg_step(args: Seq<CP>, s: Str, j: int, i: int)
    requires 0 <= j <= i < args.len()
    ensures arg_index(args, s, j) >= j, arg_index(args, s, j) == i <==> arg_index(args, s, j) >= i && cstr(args[i]) == s
    decreases i - j
{ lemma_arg_index(args, s, j); lemma_arg_index(args, s, j + 1); if j < i && cstr(args[j]) != s { lemma_arg_step(args, s, j + 1, i); } }
/// the first argument that is s
pub open spec fn arg_index(args: Seq<CP>, s: Str, i: int) -> int decreases args.len() - i
{ if i < 0 || i >= args.len() { args.len() as int } else if cstr(args[i]) == s { i } else { arg_index(args, s, i + 1) } }
pub open spec fn has_arg(args: Seq<CP>, s: Str) -> bool { arg_index(args, s, 0) < args.len() }
/// without --lint the first argument that is no option is the hext file and the others are HTML files
pub open spec fn positional(args: Seq<CP>) -> Seq<(Str, int)>
{ if has_arg(args, S!("-l")) || has_arg(args, S!("--lint")) { Seq::empty() } else { seq![(S!("hext"), 1int), (S!("html"), -1int)] } }
/// a command line the tool accepts names a rule and, except for checking syntax, a document
pub open spec fn cmd_ok(vm: VmV) -> bool
{ vm_has(vm, S!("help")) || vm_has(vm, S!("version"))
  || ((vm_has(vm, S!("hext")) || vm_has(vm, S!("str"))) && (vm_has(vm, S!("lint")) || vm_has(vm, S!("html")))) }
pub open spec fn cmd_line(args: Seq<CP>) -> Option<VmV>
{ let r = cmd_parse(po_desc(), positional(args), args); if r is Some && cmd_ok(r->Some_0) { r } else { None } }

pub open spec fn usage(name: Str, desc: Seq<OptD>) -> Str
{ name + S!(" - Extract structured content from HTML.\n\n") + S!("Usage:\n  ") + name
  + S!(" [options] <hext-file> <html-file...>\n      Apply extraction rules from <hext-file> to each\n      <html-file> and print the captured content as JSON.\n\n")
  + desc_text(desc) }

/// the rule texts, the documents
pub open spec fn hext_files(vm: VmV) -> Seq<Str> { vm_val(vm, S!("hext"))->Strs_0 }
pub open spec fn hext_strs(vm: VmV) -> Seq<Str> { vm_val(vm, S!("str"))->Strs_0 }
pub open spec fn html_files(vm: VmV) -> Seq<Str> { vm_val(vm, S!("html"))->Strs_0 }
pub open spec fn max_of(vm: VmV) -> int { vm_val(vm, S!("max-searches"))->Num_0 as int }
pub open spec fn file_parses(path: Str) -> bool { readable(path) && hext_error(up_to_nul(input_text(path).push(0i8))) is None }
pub open spec fn str_parses(text: Str) -> bool { hext_error(up_to_nul(text.push(0i8))) is None }
pub open spec fn rules_ok(vm: VmV) -> bool
{ (forall|i: int| 0 <= i < hext_files(vm).len() ==> file_parses(#[trigger] hext_files(vm)[i])) && (forall|i: int| 0 <= i < hext_strs(vm).len() ==> str_parses(#[trigger] hext_strs(vm)[i])) }
pub open spec fn docs_ok(vm: VmV) -> bool { forall|i: int| 0 <= i < html_files(vm).len() ==> readable(#[trigger] html_files(vm)[i]) }
/// a rule as it is matched (contracts/matching.py) and as it was built (contracts/parser.py): the same object
pub uninterp spec fn rule_at(r: RuleV) -> RuleP;
pub open spec fn c_text(s: Str) -> Str { up_to_nul(s.push(0i8)) }
pub open spec fn the_rules(vm: VmV) -> Seq<RuleV>
{ let fs = hext_files(vm); Seq::new(fs.len() + hext_strs(vm).len(), |i: int| if i < fs.len() { hext_tree(c_text(input_text(fs[i]))) } else { hext_tree(c_text(hext_strs(vm)[i - fs.len()])) }) }
pub open spec fn the_docs(vm: VmV) -> Seq<NodeP> { Seq::new(html_files(vm).len(), |i: int| doc_of(input_text(html_files(vm)[i]))) }
pub open spec fn recs(r: RuleV, d: NodeP) -> Seq<Seq<(Str, Str)>> { records(save(rule_at(r), d).groups) }
pub open spec fn gives_up(vm: VmV, r: RuleV, d: NodeP) -> bool { exhausted(max_of(vm), save(rule_at(r), d).cost) }
/// the values of that name, one per line
pub open spec fn filter_rec(m: Seq<(Str, Str)>, key: Str) -> Str decreases m.len()
{ if m.len() == 0 { Seq::empty() } else { let t = filter_rec(m.drop_last(), key); if m.last().0 == key { (t + m.last().1).push(10i8) } else { t } } }
pub open spec fn filter_recs(rs: Seq<Seq<(Str, Str)>>, key: Str) -> Str decreases rs.len()
{ if rs.len() == 0 { Seq::empty() } else { filter_recs(rs.drop_last(), key) + filter_rec(rs.last(), key) } }
pub open spec fn want_array(vm: VmV) -> bool { vm_has(vm, S!("array")) }
pub open spec fn want_pretty(vm: VmV) -> bool { vm_has(vm, S!("pretty")) || (!vm_has(vm, S!("compact")) && is_tty(1) != 0) }
pub open spec fn json_opt(vm: VmV) -> int { (if want_pretty(vm) { 1int } else { 0 }) + (if want_array(vm) { 2int } else { 0 }) }
/// what is printed for a rule and a document
pub open spec fn pair_out(vm: VmV, r: RuleV, d: NodeP) -> Str
{ if vm_has(vm, S!("filter")) { filter_recs(recs(r, d), vm_val(vm, S!("filter"))->Text_0) } else { json_out(recs_json(recs(r, d)), want_array(vm), want_pretty(vm)) } }
pub open spec fn docs_out(vm: VmV, r: RuleV, ds: Seq<NodeP>) -> Str decreases ds.len()
{ if ds.len() == 0 { Seq::empty() } else { docs_out(vm, r, ds.drop_last()) + pair_out(vm, r, ds.last()) } }
/// every rule on every document, in order
pub open spec fn rules_out(vm: VmV, rs: Seq<RuleV>, ds: Seq<NodeP>) -> Str decreases rs.len()
{ if rs.len() == 0 { Seq::empty() } else { rules_out(vm, rs.drop_last(), ds) + docs_out(vm, rs.last(), ds) } }
pub open spec fn all_done(vm: VmV) -> bool
{ forall|i: int, j: int| 0 <= i < the_rules(vm).len() && 0 <= j < the_docs(vm).len() ==> !gives_up(vm, #[trigger] the_rules(vm)[i], #[trigger] the_docs(vm)[j]) }
/// success: all rules parse and, unless only syntax is checked, all documents are read and every search completes
pub open spec fn run_ok(vm: VmV) -> bool
{ vm_has(vm, S!("help")) || vm_has(vm, S!("version")) || (rules_ok(vm) && (vm_has(vm, S!("lint")) || (docs_ok(vm) && all_done(vm)))) }
pub open spec fn cli_ok(args: Seq<CP>) -> bool { cmd_line(args) is Some && run_ok(cmd_line(args)->Some_0) }
/// what a successful run prints
pub open spec fn run_out(vm: VmV, name: Str) -> Str
{ if vm_has(vm, S!("help")) { usage(name, po_desc()) } else if vm_has(vm, S!("version")) { version_text() } else if vm_has(vm, S!("lint")) { Seq::empty() } else { rules_out(vm, the_rules(vm), the_docs(vm)) } }
/// nothing is printed before all rules are parsed and all documents read
pub open spec fn extracts(args: Seq<CP>) -> bool
{ cmd_line(args) is Some && { let vm = cmd_line(args)->Some_0; !vm_has(vm, S!("help")) && !vm_has(vm, S!("version")) && rules_ok(vm) && !vm_has(vm, S!("lint")) && docs_ok(vm) } }
/// machine limits
pub open spec fn sizes_ok(vm: VmV) -> bool
{
    &&& forall|p: Str| (#[trigger] file_text(p)).len() < 0x7fff_fff0
    &&& forall|i: int| 0 <= i < hext_strs(vm).len() ==> (#[trigger] hext_strs(vm)[i]).len() < 0x7fff_fff0
    &&& forall|r: RuleV, d: NodeP, i: int, j: int| 0 <= i < recs(r, d).len() && 0 <= j < recs(r, d)[i].len() ==> (#[trigger] recs(r, d)[i][j]).0.len() < 0x7fff_ffff && recs(r, d)[i][j].1.len() < 0x7fff_ffff
}

pub proof fn lemma_c_text(s: Str)
    ensures cstr(CP { null: false, buf: s.push(0i8), off: 0 }) == c_text(s), piece(CP { null: false, buf: s.push(0i8), off: 0 }, s.len() as int) == s
{
    assert(s.push(0i8).subrange(0, s.push(0i8).len() as int) =~= s.push(0i8));
    assert(piece(CP { null: false, buf: s.push(0i8), off: 0 }, s.len() as int) =~= s);
}
pub proof fn lemma_limits(vm: VmV)
    requires vm_wf(vm)
    ensures the_rules(vm).len() == hext_files(vm).len() + hext_strs(vm).len()
{}

// ---------------------------------------------------------------- a multimap is ordered by its keys
pub proof fn lemma_char_order(a: i8, b: i8) ensures (a as u8) < (b as u8) || (b as u8) < (a as u8) || a == b {
    assert(a == b || (a as u8) < (b as u8) || (b as u8) < (a as u8)) by (bit_vector);
}
pub open spec fn same_to(a: Str, b: Str, i: int) -> bool { i <= a.len() && i <= b.len() && forall|j: int| 0 <= j < i ==> a[j] == b[j] }
pub proof fn lemma_less_total(a: Str, b: Str, i: int)
    requires 0 <= i, same_to(a, b, i), !less_at(a, b, i), !less_at(b, a, i)
    ensures a == b
    decreases a.len() + b.len() - 2 * i
{
    if i < a.len() && i < b.len() { lemma_char_order(a[i], b[i]); if a[i] == b[i] { lemma_less_total(a, b, i + 1); } } else { assert(a =~= b); }
}
pub proof fn lemma_less_irr(a: Str, i: int) requires 0 <= i ensures !less_at(a, a, i) decreases a.len() - i { if i < a.len() { lemma_less_irr(a, i + 1); } }
/// not less is transitive: a <= b and b <= c give a <= c
pub proof fn lemma_le_trans(a: Str, b: Str, c: Str, i: int)
    requires 0 <= i, same_to(a, b, i), same_to(b, c, i), !less_at(b, a, i), !less_at(c, b, i)
    ensures !less_at(c, a, i)
    decreases a.len() - i
{
    if i < a.len() {
        if i < b.len() { lemma_char_order(a[i], b[i]); if i < c.len() { lemma_char_order(b[i], c[i]); lemma_char_order(a[i], c[i]); if a[i] == b[i] && b[i] == c[i] { lemma_le_trans(a, b, c, i + 1); } } }
    }
}
pub open spec fn str_le(a: Str, b: Str) -> bool { !str_less(b, a) }
pub proof fn lemma_le(a: Str, b: Str, c: Str)
    ensures str_le(a, b) && str_le(b, c) ==> str_le(a, c), str_le(a, b) && str_le(b, a) ==> a == b, str_le(a, a), str_le(a, b) || str_le(b, a)
{
    reveal(str_less);
    lemma_less_irr(a, 0);
    if str_le(a, b) && str_le(b, c) { lemma_le_trans(a, b, c, 0); }
    if str_le(a, b) && str_le(b, a) { lemma_less_total(a, b, 0); }
    lemma_less_asym(a, b, 0);
}
pub proof fn lemma_less_asym(a: Str, b: Str, i: int) requires 0 <= i ensures !(less_at(a, b, i) && less_at(b, a, i)) decreases a.len() + b.len() - 2 * i
{ if i < a.len() && i < b.len() { lemma_char_order(a[i], b[i]); lemma_less_asym(a, b, i + 1); } }
pub open spec fn mm_sorted(m: Seq<(Str, Str)>) -> bool { forall|i: int, j: int| 0 <= i <= j < m.len() ==> str_le((#[trigger] m[i]).0, (#[trigger] m[j]).0) }
pub proof fn lemma_upper_props(m: Seq<(Str, Str)>, key: Str, i: int)
    requires 0 <= i <= m.len()
    ensures i <= mm_upper(m, key, i) <= m.len(), forall|k: int| i <= k < mm_upper(m, key, i) ==> str_le((#[trigger] m[k]).0, key), mm_upper(m, key, i) < m.len() ==> !str_le(m[mm_upper(m, key, i)].0, key)
    decreases m.len() - i
{ if i < m.len() && !str_less(key, m[i].0) { lemma_upper_props(m, key, i + 1); } }
/// lower_bound
pub open spec fn mm_lower(m: Seq<(Str, Str)>, key: Str, i: int) -> int decreases m.len() - i
{ if i < 0 || i >= m.len() { m.len() as int } else if !str_less(m[i].0, key) { i } else { mm_lower(m, key, i + 1) } }
pub proof fn lemma_lower_props(m: Seq<(Str, Str)>, key: Str, i: int)
    requires 0 <= i <= m.len()
    ensures i <= mm_lower(m, key, i) <= m.len(), forall|k: int| i <= k < mm_lower(m, key, i) ==> !str_le(key, (#[trigger] m[k]).0), mm_lower(m, key, i) < m.len() ==> str_le(key, m[mm_lower(m, key, i)].0)
    decreases m.len() - i
{ if i < m.len() && str_less(m[i].0, key) { lemma_lower_props(m, key, i + 1); } }
pub proof fn lemma_insert_sorted(m: Seq<(Str, Str)>, e: (Str, Str))
    requires mm_sorted(m)
    ensures mm_sorted(mm_insert(m, e))
{
    let p = mm_upper(m, e.0, 0);
    let r = mm_insert(m, e);
    lemma_upper_props(m, e.0, 0);
    assert forall|i: int, j: int| 0 <= i <= j < r.len() implies str_le((#[trigger] r[i]).0, (#[trigger] r[j]).0) by {
        let a = if i < p { m[i] } else if i == p { e } else { m[i - 1] };
        let b = if j < p { m[j] } else if j == p { e } else { m[j - 1] };
        assert(r[i] == a && r[j] == b);
        lemma_le(e.0, e.0, e.0);
        if i == p && j > p { lemma_le(e.0, m[p].0, m[j - 1].0); lemma_le(m[p].0, e.0, e.0); }
        if i < p && j == p { assert(str_le(m[i].0, e.0)); }
    }
}
pub proof fn lemma_insert_n_sorted(m: Seq<(Str, Str)>, es: Seq<(Str, Str)>, i: int) requires mm_sorted(m), 0 <= i <= es.len() ensures mm_sorted(mm_insert_n(m, es, i)) decreases i
{ if i > 0 { lemma_insert_n_sorted(m, es, i - 1); lemma_insert_sorted(mm_insert_n(m, es, i - 1), es[i - 1]); } }
pub proof fn lemma_group_sorted(g: Pairs) ensures mm_sorted(group_map(g)) decreases g.len()
{ if g.len() > 0 { lemma_group_sorted(g.drop_last()); lemma_insert_n_sorted(group_map(g.drop_last()), pair_caps(g.last()), pair_caps(g.last()).len() as int); } }
/// every record is ordered by the names
pub proof fn lemma_records_sorted(gs: Seq<Pairs>) ensures forall|i: int| 0 <= i < records(gs).len() ==> mm_sorted(#[trigger] records(gs)[i]) decreases gs.len()
{
    if gs.len() > 0 {
        lemma_records_sorted(gs.drop_last());
        lemma_group_sorted(gs.last());
        let (r, m) = (records(gs.drop_last()), group_map(gs.last()));
        assert forall|i: int| 0 <= i < records(gs).len() implies mm_sorted(#[trigger] records(gs)[i]) by {
            if i < r.len() { assert(records(gs)[i] == r[i]); } else { assert(records(gs)[i] == m); }
        }
    }
}
/// equal_range: the entries of one key lie together
pub proof fn lemma_equal_range(m: Seq<(Str, Str)>, key: Str)
    requires mm_sorted(m)
    ensures 0 <= mm_lower(m, key, 0) <= mm_upper(m, key, 0) <= m.len(), forall|k: int| 0 <= k < m.len() ==> ((#[trigger] m[k]).0 == key <==> mm_lower(m, key, 0) <= k < mm_upper(m, key, 0))
{
    let (lo, hi) = (mm_lower(m, key, 0), mm_upper(m, key, 0));
    lemma_upper_props(m, key, 0);
    lemma_lower_props(m, key, 0);
    lemma_le(key, key, key);
    assert forall|k: int| 0 <= k < m.len() implies ((#[trigger] m[k]).0 == key <==> lo <= k < hi) by {
        lemma_le(m[k].0, key, key);
        if k < lo { assert(!str_le(key, m[k].0)); }
        if k >= hi { lemma_le(m[hi].0, m[k].0, key); }
        if lo <= k && k < hi { lemma_le(key, m[lo].0, m[k].0); }
    }
    if hi < lo { lemma_le(m[hi].0, key, key); }
}
pub open spec fn mm_count(m: Seq<(Str, Str)>, key: Str) -> int { mm_upper(m, key, 0) - mm_lower(m, key, 0) }
pub proof fn lemma_filter_none(m: Seq<(Str, Str)>, key: Str, i: int, j: int)
    requires 0 <= i <= j <= m.len(), forall|k: int| i <= k < j ==> (#[trigger] m[k]).0 != key
    ensures filter_rec(m.subrange(0, j), key) == filter_rec(m.subrange(0, i), key)
    decreases j - i
{ if i < j { lemma_take_push(m, j - 1); lemma_filter_none(m, key, i, j - 1); } }
/// the values of a name are those of its range
pub proof fn lemma_filter_range(r: RuleV, d: NodeP, i: int, key: Str)
    requires 0 <= i < recs(r, d).len()
    ensures ({ let m = recs(r, d)[i]; &&& 0 <= mm_lower(m, key, 0) <= mm_upper(m, key, 0) <= m.len()
        &&& filter_rec(m.subrange(0, mm_lower(m, key, 0)), key) == Seq::<i8>::empty() &&& filter_rec(m.subrange(0, mm_upper(m, key, 0)), key) == filter_rec(m, key)
        &&& forall|k: int| mm_lower(m, key, 0) <= k < mm_upper(m, key, 0) ==> (#[trigger] m[k]).0 == key })
{
    let m = recs(r, d)[i];
    lemma_records_sorted(save(rule_at(r), d).groups);
    lemma_equal_range(m, key);
    lemma_filter_none(m, key, 0, mm_lower(m, key, 0));
    lemma_filter_none(m, key, mm_upper(m, key, 0), m.len() as int);
    assert(m.subrange(0, m.len() as int) =~= m);
    assert(m.subrange(0, 0) =~= Seq::<(Str, Str)>::empty());
}
