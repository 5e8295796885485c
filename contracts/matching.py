"""RuleMatching.cpp and the const side of Rule.cpp (C01-C05, C12)."""
from vcgen import Contract, Loop

CONTRACTS = []


def F(*a, **k):
    CONTRACTS.append(Contract(*a, **k))


def limit(spec):
    """the search counter after a search costing spec.cost; MaxSearchError exactly when it runs out"""
    return dict(throws="exhausted($max as int, (%s).cost)" % spec, thrown="MaxSearchError")


def left(spec):
    return "left($max as int, (%s).cost)" % spec


P = ["C01", "C02", "C03"]

F("hext::FindMandatoryRule", ["begin", "end"], ret="find_mand($begin, $end)", props=P,
  loops=[Loop(roles=[("begin", "rule")], inv=["find_mand($begin, $end) == find_mand($init_begin, $end)"], decr="r_rest($begin)")])

SO = "once($rule, $begin, $end)"
F("hext::MatchRuleOnce", ["rule", "begin", "end", "result", "max"], requires=["!($rule is Null)"], ret=SO + ".node",
  out={"result": "$result + %s.out" % SO, "max": left(SO)}, props=P, scc="match", decr=["r_ht($rule)", "2int", "0int", "0int", "n_rest($begin)"],
  loops=[Loop(roles=[("begin", "node"), ("max", "int"), ("result", "vec")],
              inv=["n_ok($begin)", "n_rest($begin) <= n_rest($init_begin)",
                   "once($rule, $begin, $end).node == once($rule, $init_begin, $end).node",
                   "once($rule, $begin, $end).out =~= once($rule, $init_begin, $end).out",
                   "$result =~= $init_result",
                   "once($rule, $begin, $end).cost <= once($rule, $init_begin, $end).cost",
                   "!exhausted($init_max as int, (once($rule, $init_begin, $end).cost - once($rule, $begin, $end).cost) as nat)",
                   "$max == left($init_max as int, (once($rule, $init_begin, $end).cost - once($rule, $begin, $end).cost) as nat)"],
              head_hints=["lemma_next($begin); def_once($rule, $begin, $end); lemma_rm($rule, $begin);"],
              decr="n_rest($begin)")], **limit(SO))


def step(now, start, extra_out="$result", init_out="$init_result"):
    """a loop that computes `start` (a search result) step by step, `now` being what is left to do"""
    return ["%s.cost <= %s.cost" % (now, start),
            "!exhausted($init_max as int, (%s.cost - %s.cost) as nat)" % (start, now),
            "$max == left($init_max as int, (%s.cost - %s.cost) as nat)" % (start, now)]


SR = "range($rb, $re, $nb, $ne, $ne)"
RNOW, RINIT = "range($r_begin, $re, $n_begin, $ne, $matching_node)", "range($init_r_begin, $re, $init_n_begin, $ne, $init_matching_node)"
F("hext::MatchRange", ["rb", "re", "nb", "ne", "result", "max"], requires=["!($nb is Null)"], ret=SR + ".node",
  out={"result": "$result + %s.out" % SR, "max": left(SR)}, props=P, scc="match", decr=["r_ht($rb)", "3int", "0int", "0int", "0int"],
  loops=[Loop(roles=[("r_begin", "rule"), ("n_begin", "node"), ("matching_node", "node"), ("max", "int"), ("result", "vec")],
              inv=["n_ok($n_begin)", "n_ok($matching_node)", "r_ht($r_begin) <= r_ht($rb)",
                   RNOW + ".node == " + RINIT + ".node", "$result + %s.out =~= $init_result + %s.out" % (RNOW, RINIT)] + step(RNOW, RINIT),
              head_hints=["def_range($r_begin, $re, $n_begin, $ne, $matching_node); lemma_next($n_begin); lemma_once($r_begin, $n_begin, $ne); lemma_next(once($r_begin, $n_begin, $ne).node); lemma_next_rule($r_begin);"],
              decr=["n_rest($n_begin)", "r_rest($r_begin)"])], **limit(SR))

SB = "rm($rule, $node)"
CNOW, CINIT = "runs(r_child($rule), $next_node)", "runs(r_child($rule), $init_next_node)"
RM_LOOPS = [Loop(roles=[("next_node", "node"), ("subresult", "vec"), ("matched", "bool"), ("max", "int")],
              inv=["!($next_node is Null)", "n_ok($next_node)", "$subresult + %s.out =~= %s.out" % (CNOW, CINIT),
                   "($matched || %s.ok) == %s.ok" % (CNOW, CINIT)] + step(CNOW, CINIT),
              head_hints=["lemma_next($next_node); lemma_group(r_child($rule), $next_node); def_runs(r_child($rule), $next_node); def_runs(r_child($rule), NodeP::Null);"], entry_hints=["def_runs(r_child($rule), $next_node); lemma_group(r_child($rule), $next_node);"], decr="n_rest($next_node)"),
         Loop(roles=[("subresult", "vec"), ("max", "int")],
              inv=["$i <= r_nnested($rule)", "nests($rule, n_kid($node, 0), $i as int).ok",
                   "$subresult =~= $init_subresult + nests($rule, n_kid($node, 0), $i as int).out",
                   "!exhausted($init_max as int, nests($rule, n_kid($node, 0), $i as int).cost)",
                   "$max == left($init_max as int, nests($rule, n_kid($node, 0), $i as int).cost)"],
              head_hints=["if $i < r_nnested($rule) { lemma_nests($rule, n_kid($node, 0), $i + 1, r_nnested($rule) as int); def_nests($rule, n_kid($node, 0), $i + 1); }"]),
         Loop(roles=[("subresult", "vec")],
              inv=["$i <= $range.len()", "$subresult =~= $init_subresult + flat($range.subrange(0, $i as int))"],
              entry_hints=["assert($range.subrange(0, $range.len() as int) =~= $range);"],
              head_hints=["if $i < $range.len() { assert($range.subrange(0, $i + 1).drop_last() =~= $range.subrange(0, $i as int)); }"])]
RM_HEAD = Loop(roles=RM_LOOPS[0].roles, inv=[x for x in RM_LOOPS[0].inv if "is Null" not in x], head_hints=RM_LOOPS[0].head_hints, entry_hints=RM_LOOPS[0].entry_hints, decr="n_rest($next_node)")
# the same when rules that all are optional count as matched from the start
def RM_EARLY(loop):
    return Loop(roles=loop.roles, inv=loop.inv + ["find_mand(r_child($rule), RuleP::Null) is Null ==> $matched"], head_hints=loop.head_hints,
                entry_hints=loop.entry_hints, decr=loop.decr)


F("hext::RuleMatchesNodeRecursive", ["rule", "node", "result", "max"], ret=SB + ".ok",
  out={"result": "$result + %s.out" % SB, "max": left(SB)}, props=P, scc="match", decr=["r_ht($rule)", "1int", "0int", "0int", "0int"],
  entry=["def_rm($rule, $node); def_nests($rule, n_kid($node, 0), 0);"], loops=RM_LOOPS, alts=[[RM_HEAD] + RM_LOOPS[1:], [RM_EARLY(RM_LOOPS[0])] + RM_LOOPS[1:], [RM_EARLY(RM_HEAD)] + RM_LOOPS[1:]], **limit(SB))

SG = "group($rule, $node)"
GNOW, GINIT = "group_loop($first_rule, $rule, $node, $sub)", "group_loop($first_rule, $init_rule, $init_node, $init_sub)"
F("hext::MatchRuleGroup", ["rule", "node", "result", "max"], ret=SG + ".node",
  out={"result": "$result + %s.out" % SG, "max": left(SG)}, props=P, scc="match", decr=["r_ht($rule)", "5int", "0int", "0int", "0int"],
  entry=["def_group($rule, $node); lemma_skip_all();"], loops=[Loop(roles=[("rule", "rule"), ("node", "node"), ("sub", "vec"), ("max", "int")],
              inv=["n_ok($node)", "r_ht($rule) <= r_ht($first_rule)", "%s.node == %s.node" % (GNOW, GINIT), "%s.out =~= %s.out" % (GNOW, GINIT)] + step(GNOW, GINIT),
              head_hints=["def_group_loop($first_rule, $rule, $node, $sub); lemma_next($node); lemma_next_rule($rule); lemma_stop($first_rule, $rule); let stop_ = stop_rule($first_rule, $rule); lemma_next_rule(stop_); "
                          "lemma_once(stop_, $node, NodeP::Null); lemma_once($rule, $node, NodeP::Null); lemma_next(once(stop_, $node, NodeP::Null).node); lemma_next(once($rule, $node, NodeP::Null).node); "
                          "lemma_range($rule, RuleP::Null, $node, NodeP::Null, NodeP::Null); lemma_next(range($rule, RuleP::Null, $node, NodeP::Null, NodeP::Null).node);"],
              decr="n_rest($node)"),
         Loop(roles=[("rule", "rule")], inv=["skip_optional($rule) == skip_optional($init_rule)"], decr="r_rest($rule)")], **limit(SG))

SS = "save($rule, $node)"
LNOW, LINIT = "list_groups($rule, $next_node)", "list_groups($rule, $init_next_node)"
DNOW, DINIT = "list_below($rule, $next_node)", "list_below($rule, $init_next_node)"
SAVE_LOOPS = [Loop(roles=[("next_node", "node"), ("result", "vec"), ("max", "int")],
              inv=["n_ok($next_node)", "$result + %s.groups =~= $init_result + %s.groups" % (LNOW, LINIT)] + step(LNOW, LINIT),
              head_hints=["def_list_groups($rule, $next_node); lemma_next($next_node); lemma_group($rule, $next_node);"], decr="n_rest($next_node)"),
         Loop(roles=[("next_node", "node"), ("result", "vec"), ("max", "int")],
              inv=["!($next_node is Null)", "n_ok($next_node)", "n_ht($next_node) == n_ht($node)",
                   "$result + %s.groups =~= $init_result + %s.groups" % (DNOW, DINIT)] + step(DNOW, DINIT),
              head_hints=["def_list_below($rule, $next_node); def_list_below($rule, NodeP::Null); lemma_next($next_node);"], decr="n_rest($next_node)")]
# the same when the walk along the siblings tests at its head
SAVE_HEAD = Loop(roles=SAVE_LOOPS[1].roles, inv=["!($next_node is Null) ==> n_ht($next_node) == n_ht($node)"] + [x for x in SAVE_LOOPS[1].inv if "is Null" not in x and "n_ht" not in x],
                 head_hints=SAVE_LOOPS[1].head_hints, decr="n_rest($next_node)")
F("hext::SaveMatchingNodesRecursive", ["rule", "node", "result", "max"], requires=["!($rule is Null)", "!($node is Null)"],
  out={"result": "$result + %s.groups" % SS, "max": left(SS)}, props=P, scc="match", decr=["r_ht($rule)", "7int", "n_ht($node)", "1int", "0int"],
  entry=["def_save($rule, $node);"], loops=SAVE_LOOPS, alts=[[SAVE_LOOPS[0], SAVE_HEAD]], **limit(SS))

ALL_MATCH = "forall|j: int| 0 <= j < $i ==> slot_ok(#[trigger] r_matches($this)[j], $node)"
MATCH_HINT = "if $i < r_matches($this).len() { let m_ = r_matches($this)[$i as int]; assert(slot_ok(m_, $node) || !slot_ok(m_, $node)); }"
F("hext::Rule::matches", ["node"], this="ptr", ret="!($node is Null) && rule_accepts($this, $node)", props=["C05"],
  loops=[Loop(inv=["$i <= r_matches($this).len()", ALL_MATCH], head_hints=[MATCH_HINT])],
  alts=[[Loop(roles=[("flag", "bool")], inv=["$i <= r_matches($this).len()", "$flag == %s(%s)" % (neg, ALL_MATCH)], head_hints=[MATCH_HINT])] for neg in ("", "!")])
F("hext::Rule::capture", ["node"], this="ptr", ret="if $node is Null { Seq::empty() } else { caps(r_captures($this), $node) }", props=["C12", "C04"],
  loops=[Loop(roles=[("values", "vec")], inv=["$i <= r_captures($this).len()", "$values =~= caps_upto(r_captures($this), $node, $i as int)"])])

# ---- Rule::extract (C04): the records of the groups found by the search
F("hext::Rule::extract", ["node", "max_searches"], defaults={"max_searches": "0"}, sig=r"GumboNode|GumboInternalNode", this="ptr", requires=["!($node is Null)", "!($this is Null)"],
  ret="records(save($this, $node).groups)", throws="exhausted($max_searches as int, save($this, $node).cost)", thrown="MaxSearchError",
  props=["C01", "C02", "C03", "C04"], entry=["sound_save($this, $node);"],
  loops=[Loop(roles=[("result", "vec")], inv=["$i <= $range.len()", "$range == save($this, $node).groups", "$result =~= records($range.subrange(0, $i as int))"],
              entry_hints=["assert($range.subrange(0, $range.len() as int) =~= $range);"],
              head_hints=["if $i < $range.len() { lemma_take_push($range, $i as int); assert(all_ok($range[$i as int])); }"]),
         Loop(roles=[("map", "vec")], inv=["$i <= $range.len()", "all_ok($range)", "$map =~= group_map($range.subrange(0, $i as int))"],
              entry_hints=["assert($range.subrange(0, $range.len() as int) =~= $range);"],
              head_hints=["if $i < $range.len() { lemma_take_push($range, $i as int); assert(pair_ok($range[$i as int])); }"])])
F("hext::Rule::extract", ["html", "max_searches"], defaults={"max_searches": "0"}, sig=r"const (hext::)?Html &", this="ptr", ghost=["alive"], variant="html",
  requires=["!($html.outp is Null)", "handle_ok($html.outp, $alive)", "!($this is Null)"],
  ret="records(save($this, html_root($html.outp)).groups)", throws="exhausted($max_searches as int, save($this, html_root($html.outp)).cost)", thrown="MaxSearchError",
  props=["C02", "C03", "C04", "C22"])
