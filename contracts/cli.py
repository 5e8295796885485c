"""htmlext/Json.cpp: the records as JSON (C21)."""
from vcgen import Contract, Loop

CONTRACTS = []


def F(*a, **k):
    CONTRACTS.append(Contract(*a, **k))


PRETTY = "(%s == 1 || %s == 3)" % ("($opt as int)", "($opt as int)")
ARRAY = "(%s == 2 || %s == 3)" % ("($opt as int)", "($opt as int)")
OPT = ["0 <= $opt as int && $opt as int <= 3"]
F("htmlext::PrintJsonValue", ["value", "opt", "out"], requires=OPT, entry=["lemma_json_opt($opt as int); lemma_take_all(js_text($value, %s));" % PRETTY], out={"out": "$out + js_text($value, %s)" % PRETTY}, props=["C21"])
RECS = "recs_json($result)"
OBJ = [Loop(roles=[("doc", "js")], inv=["$i <= $result.len()", "$doc == Js::Arr(recs_json($result).subrange(0, $i as int))"],
            entry_hints=["assert(recs_json($result).subrange(0, 0) =~= Seq::<Js>::empty());"],
            hints=["assert(recs_json($result).subrange(0, $i as int) =~= recs_json($result).subrange(0, $i - 1).push(recs_json($result)[$i - 1]));"],
            exit_hints=["assert(recs_json($result).subrange(0, $result.len() as int) =~= recs_json($result));"]),
       Loop(roles=[("obj", "js")], inv=["$i <= $range.len()", "$obj == Js::Obj(rec_json($range.subrange(0, $i as int)))"],
            entry_hints=["assert($range.subrange(0, $range.len() as int) =~= $range); lemma_rec_empty($range.subrange(0, 0));"],
            head_hints=["if $i < $range.len() { lemma_take_all($range[$i as int].0); lemma_take_all($range[$i as int].1); assert(wrap_u32($range[$i as int].0.len() as int) == $range[$i as int].0.len()); assert(wrap_u32($range[$i as int].1.len() as int) == $range[$i as int].1.len()); lemma_rec_step($range, $i as int); let o_ = rec_json($range.subrange(0, $i as int)); if js_has(o_, $range[$i as int].0) { lemma_js_sets(o_, $range[$i as int].0); } }"]),
       Loop(roles=[("it", "int"), ("out", "str")], decr="$result.len() - $it",
            inv=["0 <= $it && $it <= $result.len()", "$out == $init_out + json_lines(recs_json($result).subrange(0, $it), %s)" % PRETTY],
            entry_hints=["assert(recs_json($result).subrange(0, $result.len() as int) =~= recs_json($result));"],
            head_hints=["if $it < $result.len() { lemma_take_push(recs_json($result), $it); }"])]
SMALL = "forall|i: int, j: int| 0 <= i < $result.len() && 0 <= j < $result[i].len() ==> (#[trigger] $result[i][j]).0.len() < 0x7fff_ffff && $result[i][j].1.len() < 0x7fff_ffff"
F("htmlext::PrintJson", ["result", "opt", "out"], requires=OPT + [SMALL], entry=["lemma_json_opt($opt as int);"], out={"out": "$out + json_out(%s, %s, %s)" % (RECS, ARRAY, PRETTY)}, loops=OBJ, props=["C21"])

# ---- the command line tool (C24)
PO = "htmlext::ProgramOptions::"
K24 = dict(props=["C24"])
ARGS = "forall|i: int| 0 <= i < $argv.len() ==> !(#[trigger] $argv[i]).null && 0 <= $argv[i].off <= $argv[i].buf.len()"
LI, LL = 'arg_index($argv, S!("-l"), 0)', 'arg_index($argv, S!("--lint"), 0)'
LS = 'if 0 <= $i && $i < $argv.len() { lemma_arg_step($argv, S!("-l"), 0, $i as int); lemma_arg_step($argv, S!("--lint"), 0, $i as int); }'
F("htmlext::ReadFileOrThrow", ["path"], ret="input_text($path)", throws="!readable($path)", thrown="FileError", scc="read", decr=["if $path == dash() { 1int } else { 0 }"],
  entry=["assert(dev_stdin().len() == 10 && dash().len() == 1);"], **K24)
F(PO + "ProgramOptions", ret="PoV{desc: po_desc(), vm: vm_empty()}", **K24)
F(PO + "store_and_validate_or_throw", ["argc", "argv"], requires=["$argc == $argv.len()", "$this.desc == po_desc()", "$this.vm == vm_empty()", ARGS],
  throws="cmd_line($argv) is None", thrown="error", out={"this.vm": "cmd_line($argv)->Some_0"}, entry=["lemma_cmd_line($argv);"],
  alts=[[Loop(roles=[("has_lint", "bool")], inv=["0 <= $i && $i <= $argv.len()", "$has_lint <==> %s < $i || %s < $i" % (LI, LL)], head_hints=[LS])],
        [Loop(inv=["0 <= $i && $i <= $argv.len()", "%s >= $i && %s >= $i" % (LI, LL)], head_hints=[LS])],
        [Loop(inv=["0 <= $i && $i <= $argv.len()", "%s >= $i" % LI], head_hints=[LS]), Loop(inv=["0 <= $i && $i <= $argv.len()", "%s >= $i" % LL], head_hints=[LS])]], **K24)
F(PO + "contains", ["key"], requires=["!$key.null"], ret="vm_has($this.vm, cstr($key))", **K24)
for f, k, g in (("get_hext_files", "hext", "hext_files"), ("get_hext_input", "str", "hext_strs"), ("get_html_input", "html", "html_files")):
    F(PO + f, requires=['vm_val($this.vm, S!("%s")) is Strs' % k], ret=g + "($this.vm)", **K24)
F(PO + "get", ["key"], sig=r"^unsigned long|^(std::)?uint64_t", variant="num", requires=["!$key.null", "vm_val($this.vm, cstr($key)) is Num"], ret="(vm_val($this.vm, cstr($key))->Num_0 as int)", **K24)
F(PO + "get", ["key"], sig=r"^(std::)?(__cxx11::)?(basic_)?string", variant="text", requires=["!$key.null", "vm_val($this.vm, cstr($key)) is Text"], ret="vm_val($this.vm, cstr($key))->Text_0", **K24)
F(PO + "print", ["program_name", "out"], requires=["!$program_name.null"], out={"out": "$out + usage(cstr($program_name), $this.desc)"}, **K24)
F(PO + "get_json_options", ret="json_opt($this.vm)", entry=["lemma_json_or();"], **K24)
F("htmlext::PrintVersion", ["out"], assumed="prints some text", out={"out": "$out + version_text()"}, **K24)
for f in ("ErrorOutput", "print"):
    F("htmlext::ErrorOutput::" + f, inline=True, **K24)

VM = "cmd_line($argv)->Some_0"
TEXT = lambda s: "assert((CP{null: false, buf: %s.push(0i8), off: 0}).buf.subrange(0, %s.len() + 1) =~= %s.push(0i8));" % (s, s, s)
HF_, HS_, DS_, RS_ = "hext_files(%s)" % VM, "hext_strs(%s)" % VM, "html_files(%s)" % VM, "the_rules(%s)" % VM
DD_, KEY_ = "the_docs(%s)" % VM, "vm_val(%s, S!(\"filter\"))->Text_0" % VM
PARSED = "forall|j: int| 0 <= j < $i ==> %s(#[trigger] %s[j])"
RULES = [Loop(roles=[("rules", "vec")], inv=["0 <= $i && $i <= %s.len()" % HF_, "$rules =~= %s.subrange(0, $i as int)" % RS_, PARSED % ("file_parses", HF_)],
              head_hints=["if $i < %s.len() { let f_ = %s[$i as int]; lemma_c_text(input_text(f_)); assert(file_parses(f_) || !file_parses(f_)); }" % (HF_, HF_)]),
         Loop(roles=[("rules", "vec")], inv=["0 <= $i && $i <= %s.len()" % HS_, "$rules =~= %s.subrange(0, (%s.len() + $i) as int)" % (RS_, HF_), PARSED % ("str_parses", HS_)],
              head_hints=["if $i < %s.len() { let s_ = %s[$i as int]; lemma_c_text(s_); assert(str_parses(s_) || !str_parses(s_)); }" % (HS_, HS_)])]
READ = "if $i < %s.len() { let f_ = %s[$i as int]; lemma_c_text(input_text(f_)); assert(readable(f_) || !readable(f_)); }" % (DS_, DS_)
PARSE = "forall|j: int| 0 <= j < $i ==> handle_ok((#[trigger] $parsed_html[j]).outp, $ghost_alive) && $parsed_html[j].outp is Out && html_root($parsed_html[j].outp) == %s[j]" % DD_
NI = "0 <= $i && $i <= %s.len()" % DS_
DOCS = [Loop(roles=[("html_contents", "vec"), ("parsed_html", "vec")], inv=[NI, "$html_contents.len() == $i", "$parsed_html.len() == $i", PARSED % ("readable", DS_), PARSE], head_hints=[READ])]
# the documents are read first and parsed afterwards
DOCS2 = [Loop(roles=[("html_contents", "vec")], inv=[NI, "$html_contents.len() == $i", PARSED % ("readable", DS_), "forall|j: int| 0 <= j < $i ==> #[trigger] $html_contents[j] == input_text(%s[j])" % DS_], head_hints=[READ]),
         Loop(roles=[("parsed_html", "vec")], inv=[NI, "$parsed_html.len() == $i", PARSE], head_hints=[READ])]
ALL = "%s.subrange(0, %s.len() as int) =~= %s"
RUN = [Loop(roles=[("cout", "str")], inv=["0 <= $i && $i <= %s.len()" % RS_, "$cout =~= $init_cout + rules_out(%s, %s.subrange(0, $i as int), %s)" % (VM, RS_, DD_),
                                          "forall|a: int, b: int| 0 <= a < $i && 0 <= b < %s.len() ==> !gives_up(%s, #[trigger] %s[a], #[trigger] %s[b])" % (DD_, VM, RS_, DD_)],
            head_hints=["let rule_ = %s[$i as int]; if $i < %s.len() { lemma_take_push(%s, $i as int); }" % (RS_, RS_, RS_)], exit_hints=["assert(%s);" % (ALL % (RS_, RS_, RS_))]),
       Loop(roles=[("cout", "str")], inv=["0 <= $i && $i <= %s.len()" % DD_, "$cout =~= $init_cout + docs_out(%s, rule_, %s.subrange(0, $i as int))" % (VM, DD_),
                                          "forall|b: int| 0 <= b < $i ==> !gives_up(%s, rule_, #[trigger] %s[b])" % (VM, DD_)],
            head_hints=["let doc_ = %s[$i as int]; if $i < %s.len() { lemma_take_push(%s, $i as int); assert(gives_up(%s, rule_, doc_) || !gives_up(%s, rule_, doc_)); let all_ = recs(rule_, doc_); assert(all_ == records(save(rule_at(rule_), doc_).groups)); assert(forall|i: int, j: int| 0 <= i < all_.len() && 0 <= j < all_[i].len() ==> (#[trigger] all_[i][j]).0.len() < 0x7fff_ffff && all_[i][j].1.len() < 0x7fff_ffff); }" % (DD_, DD_, DD_, VM, VM)],
            exit_hints=["assert(%s);" % (ALL % (DD_, DD_, DD_))]),
       Loop(roles=[("cout", "str")], inv=["0 <= $i && $i <= recs(rule_, doc_).len()", "$cout =~= $init_cout + filter_recs(recs(rule_, doc_).subrange(0, $i as int), %s)" % KEY_],
            head_hints=["let recs_ = recs(rule_, doc_); let at_ = $i as int; let group_ = recs_[at_]; if $i < recs_.len() { lemma_take_push(recs_, $i as int); }"], exit_hints=["assert(%s);" % (ALL % (("recs(rule_, doc_)",) * 3))]),
       Loop(roles=[("cout", "str")], inv=["0 <= $i && $i <= group_.len()", "$cout =~= $init_cout + filter_rec(group_.subrange(0, $i as int), %s)" % KEY_],
            head_hints=["if $i < group_.len() { lemma_take_push(group_, $i as int); }"], exit_hints=["assert(%s);" % (ALL % (("group_",) * 3))])]
# the entries of one name are looked up in the record, which is ordered
FILTER2 = Loop(roles=[("it", "int"), ("cout", "str")], decr="mm_upper(group_, %s, 0) - $it" % KEY_,
               inv=["mm_lower(group_, %s, 0) <= $it && $it <= mm_upper(group_, %s, 0)" % (KEY_, KEY_), "$cout =~= $init_cout + filter_rec(group_.subrange(0, $it), %s)" % KEY_],
               entry_hints=["lemma_filter_range(rule_, doc_, at_, %s);" % KEY_], head_hints=["lemma_filter_range(rule_, doc_, at_, %s); if $it < group_.len() { lemma_take_push(group_, $it); }" % KEY_])
F("main", ["argc", "argv"], ghost=["alive"], streams=["cout", "cerr"], requires=["$argc == $argv.len()", "$argc >= 1", ARGS, "cmd_line($argv) is Some ==> sizes_ok(%s)" % VM],
  entry=["axiom_cmd_parse(positional($argv), $argv); if cmd_line($argv) is Some { lemma_limits(%s); }" % VM], ret="if cli_ok($argv) { 0int } else { 1 }", out={"cout": None, "cerr": None, "alive": None},
  ensures=["$ret == 0 ==> $out.cout == $cout + run_out(%s, cstr($argv[0])) && $out.cerr == $cerr" % VM, "$ret == 1 ==> $out.cerr.len() > $cerr.len()", "$ret == 1 && !extracts($argv) ==> $out.cout == $cout"],
  loops=RULES + DOCS + RUN, alts=[RULES + DOCS2 + RUN, RULES + DOCS + RUN[:3] + [FILTER2]], **K24)
