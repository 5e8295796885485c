"""Conditions on single nodes (C06, C07, C05) and document utilities (C10, C11)."""
from vcgen import Contract, Loop

CONTRACTS = []


def F(*a, **k):
    CONTRACTS.append(Contract(*a, **k))


NN = ["!($node is Null)"]


def M(cls, props, xreq=(), **k):
    F("hext::%s::matches" % cls, ["node"], requires=NN + list(xreq), ret="match_holds($this, $node)", overrides="Match", props=props, **k)


M("AttributeCountMatch", ["C07"])
M("AttributeMatch", ["C07", "C08"])
M("ChildCountMatch", ["C07"])
F("hext::ChildCountMatch::count_child_elements", ["node"], requires=NN, ret="if is_el($node) { el_children($node) } else { 0 }", props=["C07"],
  entry=["lemma_count_bounds($node, true, 0, 0, n_nkids($node) as int);"],
  loops=[Loop(roles=[("count", "int")], inv=["0 <= $count <= $i", "$i <= n_nkids($node)", "$count == count_kids($node, true, 0, 0, $i as int)"],
              decr="n_nkids($node) - $i")])
M("FunctionMatch", ["C07"], xreq=["!($this.func is Null)"])
M("FunctionValueMatch", ["C07", "C08"], xreq=["!($this.func is Null)"])
NEG_HINT = "let t_ = $this; assert(decreases_to!(t_ => t_->NegateMatch_matches)); let m_ = $this.matches[$i as int]; if $i < $this.matches.len() { assert(m_ is Some && match_holds(*m_->Some_0, $node) ==> slot_holds(m_, $node)); assert(decreases_to!($this.matches => m_)); }"
NONE = "forall|j: int| 0 <= j < $i ==> !slot_holds(#[trigger] $this.matches[j], $node)"
M("NegateMatch", ["C07"], loops=[Loop(inv=[NONE], head_hints=[NEG_HINT])],
  # the outcome kept in a flag
  alts=[[Loop(roles=[("flag", "bool")], inv=["$flag == %s(%s)" % (neg, NONE)], head_hints=[NEG_HINT])] for neg in ("", "!")])
M("NthChildMatch", ["C06"], exit=["lemma_nth($this.step as int, $this.shift as int, el_position($node, has_bit($this.options, 2), !has_bit($this.options, 8)));"])
F("hext::NthChildMatch::count_preceding_siblings", ["node", "count_tag"], requires=NN + ["is_el($node)", "$count_tag == 512 || $count_tag == n_tag($node)"],
  ret="el_position($node, true, $count_tag == 512)", props=["C06"],
  loops=[Loop(roles=[("count", "int"), ("i", "int")],
              inv=["$node is Kid", "is_el(n_parent($node))", "0 <= $count <= $i", "$i <= n_index($node)",
                   "$count == count_kids(n_parent($node), $count_tag == 512, n_tag($node) as int, 0, $i as int)"],
              decr="n_index($node) + 1 - $i")],
  # the same, counting through to the node instead of stopping at it
  alts=[[Loop(roles=[("count", "int"), ("i", "int")],
              inv=["$node is Kid", "is_el(n_parent($node))", "0 <= $count <= $i", "$i <= n_index($node) + 1",
                   "$count == count_kids(n_parent($node), $count_tag == 512, n_tag($node) as int, 0, $i as int)"],
              decr="n_index($node) + 1 - $i", exit_hints=["lemma_count_bounds(n_parent($node), $count_tag == 512, n_tag($node) as int, 0, n_index($node) as int);"])]])
F("hext::NthChildMatch::count_following_siblings", ["node", "count_tag"], requires=NN + ["is_el($node)", "$count_tag == 512 || $count_tag == n_tag($node)"],
  ret="el_position($node, false, $count_tag == 512)", props=["C06"],
  loops=[Loop(roles=[("count", "int"), ("i", "int")],
              inv=["$node is Kid", "is_el(n_parent($node))", "0 <= $count", "$count + $i <= n_nkids(n_parent($node))", "n_index($node) < $i",
                   "$count == count_kids(n_parent($node), $count_tag == 512, n_tag($node) as int, $i as int, n_nkids(n_parent($node)) as int)"],
              head_hints=["lemma_count_front(n_parent($node), $count_tag == 512, n_tag($node) as int, $i - 1, n_nkids(n_parent($node)) as int);"],
              decr="$i")])
M("OnlyChildMatch", ["C06", "C07"],
  loops=[Loop(roles=[("i", "int")],
              inv=["$node is Kid", "is_el(n_parent($node))", "0 <= $i <= n_nkids(n_parent($node))",
                   "forall|j: int| 0 <= j < $i && is_el(#[trigger] n_kid(n_parent($node), j)) && n_kid(n_parent($node), j) != $node ==> has_bit($this.options, 4) && n_tag(n_kid(n_parent($node), j)) != n_tag($node)"],
              decr="n_nkids(n_parent($node)) - $i")])
M("TypeRegexMatch", ["C07"])
for o in ("NthChildMatch", "OnlyChildMatch"):
    F("hext::operator|", ["left", "right"], sig="\\b" + o, variant=o, inline=True, props=["C06"])
    F("hext::operator&", ["left", "right"], sig="\\b" + o, variant=o, inline=True, props=["C06"])

# ---- document utilities
F("hext::NextNode", ["node"], ret="next_node($node)", props=["C02", "C01"])
F("hext::TagIsSelfClosing", ["tag"], ret="self_closing($tag as int)", props=["C11"])
F("hext::TagWrapsText", ["tag"], ret="tag_wraps($tag as int)", props=["C10"])
F("hext::NodeText", ["node"], ret="text_builtin($node)", props=["C10"])
F("hext::StripTags", ["node", "smart_wrap"], ret="strip_tags($node, $smart_wrap)", props=["C10"], scc="strip", decr=["n_ht($node)"],
  loops=[Loop(roles=[("inner_text", "str"), ("i", "int")],
              inv=["!($node is Null)", "is_el($node)", "0 <= $i <= n_nkids($node)", "$inner_text =~= strip_kids($node, $smart_wrap, $i as int)"],
              head_hints=["let kid_ = n_kid($node, $i as int);", "if $i < n_nkids($node) { assert(strip_kids($node, $smart_wrap, $i + 1) == strip_kids($node, $smart_wrap, $i as int) + strip_kid(kid_, $smart_wrap)); }"],
              decr="n_nkids($node) - $i")])
F("hext::StripTagsWrapper", ["node"], ret="strip_tags($node, false)", props=["C10"])
F("hext::NodeInnerHtml", ["node"], ret="inner_html($node)", props=["C11"],
  loops=[Loop(roles=[("os", "str"), ("i", "int")],
              inv=["is_el($node)", "!($node is Null)", "0 <= $i <= n_nkids($node)", "$os =~= ser_kids($node, $i as int)"], decr="n_nkids($node) - $i")])
F("hext::SerializeNode", ["n", "os"], out={"os": "$os + ser_node($n)"}, props=["C11"], scc="ser", decr=["n_ht($n)", "1int"])
F("hext::SerializeDocument", ["d", "os"], out={"os": "$os + ser_doc($d)"}, props=["C11"])
F("hext::SerializeAttribute", ["a", "os"], out={"os": "$os + ser_attr($a)"}, props=["C11"])
F("hext::SerializeElementTag", ["e", "os"], out={"os": "$os + tag_name($e)"}, props=["C11"])
F("hext::SerializeElement", ["e", "os"], out={"os": "$os + ser_elem($e)"}, props=["C11"], scc="ser", decr=["n_ht($e)", "0int"],
  loops=[Loop(roles=[("os", "str"), ("i", "int")],
              inv=["0 <= $i <= n_nattrs($e)", "$os =~= $init_os + ser_attrs($e, $i as int)"], decr="n_nattrs($e) - $i"),
         Loop(roles=[("os", "str"), ("i", "int")],
              inv=["0 <= $i <= n_nkids($e)", "$os =~= $init_os + ser_kids($e, $i as int)"], decr="n_nkids($e) - $i")])
