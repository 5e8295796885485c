"""Rules as values: construction, copying, building (C14, C15)."""
from vcgen import Contract, Loop

CONTRACTS = []


def F(*a, **k):
    CONTRACTS.append(Contract(*a, **k))


R = "hext::Rule::"
NEW = "RuleV{first_child: None, next: None, nested: Seq::empty(), matches: Seq::empty(), captures: Seq::empty(), tag: %s as i32, is_optional: $optional, is_greedy: $greedy, tagname: %s}"
F(R + "Rule", ["tag", "optional", "greedy"], sig=r"\(HtmlTag|\(hext::HtmlTag", ret=NEW % ("$tag", "None"), defaults={"tag": "512", "optional": "false", "greedy": "false"}, props=["C15"], variant="tag")
F(R + "Rule", ["tag", "optional", "greedy"], sig=r"\(std::string|basic_string", ret=NEW % ("rule_tag_of($tag)", "rule_tagname_of($tag)"), defaults={"optional": "false", "greedy": "false"}, props=["C15"], variant="name")
COPYLOOP = lambda f: Loop(inv=["$cur.%s =~= $range.subrange(0, $i)" % f], exit_hints=["assert($cur.%s =~= $range);" % f])
F(R + "Rule", ["other"], sig=r"\(const (hext::)?Rule &\)", ret="$other", props=["C14"], variant="copy", scc="rulecopy", sdecr="$other",
  loops=[COPYLOOP("matches"), COPYLOOP("captures")])
F(R + "operator=", ["other"], sig=r"const (hext::)?Rule &", ret="*this", out={"this": "$other"}, props=["C14"])
F(R + "operator=", ["other"], sig=r"const (hext::)?Rule &", ret="*this", out={"this": "$this"}, alias="other", variant="self", props=["C14"])
F(R + "swap", ["other"], out={"this": "$this"}, alias="other", variant="self", props=["C14"])
F(R + "swap", ["other"], out={"this": "$other", "other": "$this"}, props=["C14"])

F(R + "append_next", ["sibling"], ret="*this", out={"this": "rule_append_next($this, $sibling)"}, props=["C15"],
  entry=["lemma_rule_chain($this);"],
  loops=[Loop(roles=[("target", "hops")], decr="rule_chain($this) - $target", head_hints=["lemma_rule_hops_step($this, $target);"],
              exit_hints=["lemma_rule_append_hops($this, $target, $sibling);"])])
F(R + "append_child", ["new_child"], ret="*this", out={"this": "rule_append_child($this, $new_child)"}, props=["C15"])
F(R + "append_nested", ["nested"], ret="*this", out={"this.nested": "$this.nested.push($nested)"}, props=["C15"])
F(R + "append_match", ["match"], sig=r"std::unique_ptr<(hext::)?Match", ret="*this", out={"this.matches": "$this.matches.push($match)"}, props=["C15"])
F(R + "append_capture", ["cap"], sig=r"std::unique_ptr<(hext::)?Capture", ret="*this", out={"this.captures": "$this.captures.push($cap)"}, props=["C15"])
for f, a in (("set_tag", "tag"), ("set_optional", "optional"), ("set_greedy", "greedy"), ("set_tagname", "tagname")):
    fld = {"set_tag": "tag", "set_optional": "is_optional", "set_greedy": "is_greedy", "set_tagname": "tagname"}[f]
    F(R + f, [a], ret="*this", out={"this." + fld: "Some($tagname)" if f == "set_tagname" else "$" + a}, props=["C15"])
for f, fld in (("get_tag", "tag"), ("is_optional", "is_optional"), ("is_greedy", "is_greedy"), ("get_tagname", "tagname")):
    F(R + f, ret="$this." + fld, props=["C15"])
for f, fld in (("child", "first_child"), ("next", "next"), ("nested", "nested")):
    F(R + f, sig=r"\(\) noexcept", ret="&this." + fld, props=["C15"], variant="mut")
