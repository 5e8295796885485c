// ---------------------------------------------------------------- the parsed document (Gumbo tree)
// A node pointer is null, a root, or child i of its parent: the shape (parents, sibling indexes,
// finite depth) holds by construction; kinds, tags, attributes and texts are arbitrary.
#[verifier::ext_equal]
pub enum NodeP { Null, Root(int), Kid(Box<NodeP>, int) }
#[verifier::ext_equal]
pub enum AttrP { Null, At(Box<NodeP>, int) }
pub uninterp spec fn raw_type(n: NodeP) -> u32;
pub uninterp spec fn raw_nkids(n: NodeP) -> u32;
pub uninterp spec fn root_index(i: int) -> u64;
pub uninterp spec fn ND() -> nat;
pub open spec fn n_depth(n: NodeP) -> nat decreases n { match n { NodeP::Kid(p, _) => n_depth(*p) + 1, _ => 0 } }
pub open spec fn n_type(n: NodeP) -> u32 { if raw_type(n) <= 6 { raw_type(n) } else { 0 } }
pub open spec fn n_parent(n: NodeP) -> NodeP { match n { NodeP::Kid(p, _) => *p, _ => NodeP::Null } }
pub open spec fn n_index(n: NodeP) -> u64 { match n { NodeP::Kid(_, i) => i as u64, NodeP::Root(i) => root_index(i), NodeP::Null => 0 } }
pub open spec fn n_nkids(n: NodeP) -> u32 { if n_depth(n) < ND() && raw_nkids(n) < 0x7fff_ffff { raw_nkids(n) } else { 0 } }
pub open spec fn n_kid(n: NodeP, i: int) -> NodeP { NodeP::Kid(Box::new(n), i) }
/// remaining depth: strictly smaller for children
pub open spec fn n_ht(n: NodeP) -> int { if n is Null { 0 } else if n_depth(n) < ND() { ND() - n_depth(n) } else { 0 } }
/// the pointer designates a node that exists (or is null)
pub open spec fn n_ok(n: NodeP) -> bool decreases n
{ match n { NodeP::Kid(p, i) => n_ok(*p) && !(*p is Null) && 0 <= i < n_nkids(*p) && (is_elem(*p) || is_doc(*p)), _ => true } }
pub open spec fn is_elem(n: NodeP) -> bool { n_type(n) == GUMBO_NODE_ELEMENT() || n_type(n) == GUMBO_NODE_TEMPLATE() }
pub open spec fn is_text(n: NodeP) -> bool
{ n_type(n) == GUMBO_NODE_TEXT() || n_type(n) == GUMBO_NODE_CDATA() || n_type(n) == GUMBO_NODE_COMMENT() || n_type(n) == GUMBO_NODE_WHITESPACE() }
pub open spec fn is_doc(n: NodeP) -> bool { n_type(n) == GUMBO_NODE_DOCUMENT() }
/// an element proper (what the documentation calls an element)
pub open spec fn is_el(n: NodeP) -> bool { n_type(n) == GUMBO_NODE_ELEMENT() }
pub uninterp spec fn raw_tag(n: NodeP) -> u32;
pub open spec fn n_tag(n: NodeP) -> u32 { if raw_tag(n) < GUMBO_TAG_LAST() { raw_tag(n) } else { GUMBO_TAG_UNKNOWN() } }
pub uninterp spec fn raw_text(n: NodeP) -> Str;
pub open spec fn n_text(n: NodeP) -> CP { CP { null: false, buf: raw_text(n), off: 0 } }
pub open spec fn text_of(n: NodeP) -> Str { cstr(n_text(n)) }
pub uninterp spec fn raw_nattrs(n: NodeP) -> u32;
pub open spec fn n_nattrs(n: NodeP) -> u32 { raw_nattrs(n) }
pub open spec fn n_attr(n: NodeP, i: int) -> AttrP { AttrP::At(Box::new(n), i) }
pub uninterp spec fn raw_a_name(a: AttrP) -> Str;
pub uninterp spec fn a_name_null(a: AttrP) -> bool;
pub open spec fn a_name(a: AttrP) -> CP { CP { null: a_name_null(a), buf: raw_a_name(a), off: 0 } }
pub uninterp spec fn raw_a_value(a: AttrP) -> Str;
pub uninterp spec fn a_value_null(a: AttrP) -> bool;
pub open spec fn a_value(a: AttrP) -> CP { CP { null: a_value_null(a), buf: raw_a_value(a), off: 0 } }
pub uninterp spec fn raw_a_ns(a: AttrP) -> u32;
pub open spec fn a_ns(a: AttrP) -> u32 { if raw_a_ns(a) <= 3 { raw_a_ns(a) } else { 0 } }
/// text of the start tag as written (a string piece inside the document)
pub uninterp spec fn raw_otag(n: NodeP) -> CP;
pub uninterp spec fn raw_otag_len(n: NodeP) -> u64;
pub open spec fn n_otag(n: NodeP) -> CP { raw_otag(n) }
pub open spec fn n_otag_len(n: NodeP) -> u64 { if piece_ok(raw_otag(n), raw_otag_len(n) as int) { raw_otag_len(n) } else { 0 } }
pub uninterp spec fn d_has_doctype(n: NodeP) -> bool;
pub uninterp spec fn raw_d_name(n: NodeP) -> Str;
pub uninterp spec fn d_name_null(n: NodeP) -> bool;
pub open spec fn d_name(n: NodeP) -> CP { CP { null: d_name_null(n), buf: raw_d_name(n), off: 0 } }
pub uninterp spec fn raw_d_public(n: NodeP) -> Str;
pub uninterp spec fn d_public_null(n: NodeP) -> bool;
pub open spec fn d_public(n: NodeP) -> CP { CP { null: d_public_null(n), buf: raw_d_public(n), off: 0 } }
pub uninterp spec fn raw_d_system(n: NodeP) -> Str;
pub uninterp spec fn d_system_null(n: NodeP) -> bool;
pub open spec fn d_system(n: NodeP) -> CP { CP { null: d_system_null(n), buf: raw_d_system(n), off: 0 } }
/// gumbo_get_attribute: the first attribute whose name equals, ignoring case
pub open spec fn get_attr_from(n: NodeP, name: Str, i: int) -> AttrP decreases n_nattrs(n) - i
{ if i < 0 || i >= n_nattrs(n) { AttrP::Null } else if eq_ignore_case(cstr(a_name(n_attr(n, i))), name) { n_attr(n, i) } else { get_attr_from(n, name, i + 1) } }
pub open spec fn get_attr(n: NodeP, name: Str) -> AttrP { get_attr_from(n, name, 0) }
pub uninterp spec fn raw_tagname(t: int) -> Str;
pub open spec fn normalized_tagname(t: int) -> CP { CP { null: false, buf: raw_tagname(t), off: 0 } }
/// gumbo_tag_from_original_text: the tag name inside "<name ...>" (a sub-piece)
pub uninterp spec fn raw_from_orig_data(p: CP, n: int) -> CP;
pub uninterp spec fn raw_from_orig_len(p: CP, n: int) -> u64;
pub open spec fn tag_from_orig_data(p: CP, n: int) -> CP { raw_from_orig_data(p, n) }
pub open spec fn tag_from_orig_len(p: CP, n: int) -> int
{ if piece_ok(raw_from_orig_data(p, n), raw_from_orig_len(p, n) as int) { raw_from_orig_len(p, n) as int } else { 0 } }
pub uninterp spec fn raw_tag_enum(s: Str) -> int;
/// a GumboTag (known tags are below UNKNOWN)
pub open spec fn gumbo_tag_enum(s: Str) -> int { if 0 <= raw_tag_enum(s) <= HTMLTAG_UNKNOWN() { raw_tag_enum(s) } else { HTMLTAG_UNKNOWN() as int } }
/// tag name as written in the document
pub open spec fn orig_name(n: NodeP) -> Str
{ piece(tag_from_orig_data(n_otag(n), n_otag_len(n) as int), tag_from_orig_len(n_otag(n), n_otag_len(n) as int)) }
/// tag name: as written for custom elements, normalised otherwise
pub open spec fn tag_name(n: NodeP) -> Str { if n_tag(n) == GUMBO_TAG_UNKNOWN() { orig_name(n) } else { cstr(normalized_tagname(n_tag(n) as int)) } }
/// string of a std::string_view(data, length) on a piece
pub open spec fn next_node(n: NodeP) -> NodeP
{ match n { NodeP::Kid(p, i) => if is_el(*p) && i + 1 < n_nkids(*p) { n_kid(*p, i + 1) } else { NodeP::Null }, _ => NodeP::Null } }

// ---------------------------------------------------------------- C10 text
pub open spec fn tag_wraps(t: int) -> bool {
    !(t == GUMBO_TAG_A() || t == GUMBO_TAG_ABBR() || t == GUMBO_TAG_ACRONYM() || t == GUMBO_TAG_B() || t == GUMBO_TAG_BDO() || t == GUMBO_TAG_BIG()
      || t == GUMBO_TAG_CITE() || t == GUMBO_TAG_CODE() || t == GUMBO_TAG_DEL() || t == GUMBO_TAG_DFN() || t == GUMBO_TAG_EM() || t == GUMBO_TAG_FIELDSET()
      || t == GUMBO_TAG_FONT() || t == GUMBO_TAG_I() || t == GUMBO_TAG_IMG() || t == GUMBO_TAG_INS() || t == GUMBO_TAG_KBD() || t == GUMBO_TAG_LABEL()
      || t == GUMBO_TAG_LEGEND() || t == GUMBO_TAG_MAP() || t == GUMBO_TAG_OBJECT() || t == GUMBO_TAG_Q() || t == GUMBO_TAG_S() || t == GUMBO_TAG_SAMP()
      || t == GUMBO_TAG_SMALL() || t == GUMBO_TAG_SPAN() || t == GUMBO_TAG_STRIKE() || t == GUMBO_TAG_STRONG() || t == GUMBO_TAG_SUB() || t == GUMBO_TAG_SUP()
      || t == GUMBO_TAG_TT() || t == GUMBO_TAG_U() || t == GUMBO_TAG_VAR())
}
pub open spec fn wrapped(n: NodeP, smart: bool) -> bool { smart && is_el(n) && tag_wraps(n_tag(n) as int) }
pub open spec fn strip_tags(n: NodeP, smart: bool) -> Str decreases n_ht(n), 0int, 1int
{
    if n is Null { Seq::empty() }
    else if is_el(n) { strip_kids(n, smart, n_nkids(n) as int) }
    else if n_type(n) == GUMBO_NODE_TEXT() || n_type(n) == GUMBO_NODE_WHITESPACE() { text_of(n) }
    else { Seq::empty() }
}
pub open spec fn strip_kid(n: NodeP, smart: bool) -> Str decreases n_ht(n), 0int, 2int
{ if wrapped(n, smart) { (seq![10i8] + strip_tags(n, smart)).push(10i8) } else { strip_tags(n, smart) } }
pub open spec fn strip_kids(n: NodeP, smart: bool, i: int) -> Str decreases n_ht(n), 0int, 0int, i
{ if i <= 0 || n_ht(n) <= 0 { Seq::empty() } else { strip_kids(n, smart, i - 1) + strip_kid(n_kid(n, i - 1), smart) } }
pub open spec fn text_builtin(n: NodeP) -> Str { collapse(strip_tags(n, true)) }

// ---------------------------------------------------------------- C11 serialisation
pub open spec fn self_closing(t: int) -> bool {
    t == GUMBO_TAG_AREA() || t == GUMBO_TAG_BASE() || t == GUMBO_TAG_BR() || t == GUMBO_TAG_COL() || t == GUMBO_TAG_EMBED() || t == GUMBO_TAG_HR()
    || t == GUMBO_TAG_IMG() || t == GUMBO_TAG_INPUT() || t == GUMBO_TAG_KEYGEN() || t == GUMBO_TAG_LINK() || t == GUMBO_TAG_META() || t == GUMBO_TAG_PARAM()
    || t == GUMBO_TAG_SOURCE() || t == GUMBO_TAG_TRACK() || t == GUMBO_TAG_WBR()
}
pub open spec fn ns_prefix(k: int) -> Str {
    if k == GUMBO_ATTR_NAMESPACE_XLINK() { lit_xlink() } else if k == GUMBO_ATTR_NAMESPACE_XML() { lit_xml() }
    else if k == GUMBO_ATTR_NAMESPACE_XMLNS() { lit_xmlns() } else { Seq::empty() }
}
pub open spec fn lit_xlink() -> Str { seq![120i8, 108i8, 105i8, 110i8, 107i8, 58i8] }
pub open spec fn lit_xml() -> Str { seq![120i8, 109i8, 108i8, 58i8] }
pub open spec fn lit_xmlns() -> Str { seq![120i8, 109i8, 108i8, 110i8, 115i8, 58i8] }
pub open spec fn lit_comment_open() -> Str { seq![60i8, 33i8, 45i8, 45i8] }
pub open spec fn lit_comment_close() -> Str { seq![45i8, 45i8, 62i8] }
pub open spec fn lit_doctype() -> Str { seq![60i8, 33i8, 68i8, 79i8, 67i8, 84i8, 89i8, 80i8, 69i8] }
pub open spec fn opt_sp(p: CP) -> Str { if p.null { Seq::empty() } else { seq![32i8] + cstr(p) } }
pub open spec fn ser_doc(n: NodeP) -> Str { lit_doctype() + opt_sp(d_name(n)) + opt_sp(d_public(n)) + opt_sp(d_system(n)) + seq![62i8, 10i8] }
pub open spec fn ser_attr(a: AttrP) -> Str
{
    if a_name(a).null { Seq::empty() } else {
        seq![32i8] + ns_prefix(a_ns(a) as int) + cstr(a_name(a)) + (if a_value(a).null { Seq::empty() } else { seq![61i8] + quoted(cstr(a_value(a))) })
    }
}
pub open spec fn ser_attrs(n: NodeP, i: int) -> Str decreases i { if i <= 0 { Seq::empty() } else { ser_attrs(n, i - 1) + ser_attr(n_attr(n, i - 1)) } }
pub open spec fn ser_elem(n: NodeP) -> Str decreases n_ht(n), 1int, 0int
{
    let open = seq![60i8] + tag_name(n) + ser_attrs(n, n_nattrs(n) as int);
    if self_closing(n_tag(n) as int) { open + seq![47i8, 62i8] }
    else { open + seq![62i8] + ser_kids(n, n_nkids(n) as int) + seq![60i8, 47i8] + tag_name(n) + seq![62i8] }
}
pub open spec fn ser_kids(n: NodeP, i: int) -> Str decreases n_ht(n), 0int, i
{ if i <= 0 || n_ht(n) <= 0 { Seq::empty() } else { ser_kids(n, i - 1) + ser_node(n_kid(n, i - 1)) } }
pub open spec fn ser_node(n: NodeP) -> Str decreases n_ht(n), 2int, 0int
{
    let t = n_type(n);
    if t == GUMBO_NODE_DOCUMENT() { if d_has_doctype(n) { ser_doc(n) } else { Seq::empty() } }
    else if t == GUMBO_NODE_ELEMENT() || t == GUMBO_NODE_TEMPLATE() { ser_elem(n) }
    else if t == GUMBO_NODE_COMMENT() { lit_comment_open() + text_of(n) + lit_comment_close() }
    else if t == GUMBO_NODE_TEXT() || t == GUMBO_NODE_WHITESPACE() { text_of(n) }
    else { Seq::empty() }
}
pub open spec fn inner_html(n: NodeP) -> Str { if n is Null || !is_el(n) { Seq::empty() } else { ser_kids(n, n_nkids(n) as int) } }
