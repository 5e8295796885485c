#!/usr/bin/env python3
# Regenerates properties.jsonl from the table below (kept here so the text is reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="libhext/src/"; I="libhext/include/hext/"
IN=["inputs"]; 
p("C01","Match groups are sound and all-or-nothing",
 "Every element paired with a rule node in an extraction satisfies all of that rule node's own conditions and the requirements of its mandatory nested and child rules, and every group that is reported contains a match for each mandatory rule of the sequence. When any mandatory part of a sequence fails to match, nothing captured for that attempt (including by its nested rules) appears in the result.",
 IN,"every rule tree, every HTML document",
 "Tests compare a few hundred fixed rule/document pairs; a leak of a partial match needs a particular failing suffix under a particular optional/greedy prefix.",
 [S+"RuleMatching.cpp",S+"Rule.cpp"],[("partial results are collected in a local set and moved to the output only on success","MatchRuleGroup, RuleMatchesNodeRecursive"),("a candidate is accepted only after matches() and its subtree succeed","RuleMatchesNodeRecursive")],observe=["Rule::extract"])
p("C02","Matches found are exactly those of the documented search",
 "The set and order of groups is exactly that of the documented search: for the element children of every element of the tree, groups are formed left to right; within a group each mandatory rule takes the first following sibling that matches it, a greedy rule keeps taking further matches, and optional rules are tried only in the gap up to the next mandatory match, of this group or of the next one. Child rules are matched against all complete runs among the element's children, nested rules anywhere below the element, and no group this search forms is missing from the result or reported twice.",
 IN,"every rule tree with any mixture of optional, greedy, child and nested rules, every HTML document",
 "The interaction of optional/greedy/nested rules has unboundedly many shapes; tests sample a few of them with small documents.",
 [S+"RuleMatching.cpp",S+"NodeUtil.cpp"],[("sibling traversal and stop-rule computation","MatchRuleGroup / MatchRange / MatchRuleOnce / FindMandatoryRule / NextNode"),("descent into every element","SaveMatchingNodesRecursive")],observe=["Rule::extract"])
p("C03","The search limit is exact and all-or-nothing",
 "With a non-zero search limit an extraction either returns the same result as without a limit, or throws the documented limit error and returns nothing; it throws exactly when the number of sibling lists searched (counting those searched for nested rules) reaches the limit. A limit of zero never throws, and leaving the limit out is the same as zero.",
 IN,"every rule tree, document and 64-bit limit",
 "Tests use one document and a few limits; the counter is threaded by reference through mutually recursive functions.",
 [S+"RuleMatching.cpp",S+"Rule.cpp"],[("decrement-and-test on entry of each search","SaveMatchingNodesRecursive"),("limit passed by reference through the recursion","RuleMatching.cpp")],[("max_searches","remaining searches, 0 = unlimited","SaveMatchingNodesRecursive")],["Rule::extract"])
p("C04","One record per group, with every captured value",
 "The result has one record for every match group that captured at least one value, in the order the groups were found, and groups that captured nothing produce no record. A record holds exactly the name/value pairs produced by the captures of every matched rule of the group on the element it matched, with repeated names all kept in the order they were matched.",
 IN,"every list of match groups and every set of captures",
 "Tests check small results; multiplicity and order under repeated names depend on arbitrary group shapes.",
 [S+"Rule.cpp",I+"Result.h"],[("captures applied per pair and inserted in order","Rule::extract, Rule::capture")],observe=["Rule::extract","Rule::capture"])
p("C05","A rule node accepts an element iff tag and all conditions agree",
 "A rule node accepts an HTML node exactly when its tag is the wildcard or the node is an element with the same tag, custom tag names compared case-insensitively over their full length, and every attached condition accepts the node. The wildcard without conditions accepts every node, and no node is accepted that fails a condition, whatever the position of that condition in the list.",
 IN,"every rule node, every HTML node",
 "The number and order of conditions and the custom tag names are unbounded.",
 [S+"Rule.cpp"],[("tag comparison and conjunction of conditions","Rule::matches")],observe=["Rule::matches","Rule::extract"])
p("C06","nth-child family computes the documented arithmetic",
 "An nth-child style condition with step a and shift b accepts an element exactly when its 1-based position equals a*k+b for some integer k >= 0, for all values of a and b that can be written in a rule including negative and extreme ones. The position counts element siblings only, from the front or from the back, and only those of the same tag for the of-type variants; an element without a parent element has position 0.",
 IN,"every element of every document; every int step and shift; all four variants",
 "Tests use small steps and shifts on small sibling lists.",
 [S+"NthChildMatch.cpp",I+"NthChildMatch.h"],[("sibling counting","count_preceding_siblings / count_following_siblings"),("congruence test","NthChildMatch::matches")],observe=["NthChildMatch::matches"])
p("C07","Structural conditions count what they say they count",
 "The child-count condition (and :empty as child-count 0) accepts exactly the elements having that number of element children, the attribute-count condition exactly those having that number of attributes, and :only-child / :only-of-type exactly the elements whose parent element has no other element child (of the same tag). :not accepts exactly the nodes that none of its conditions accepts, and :type-matches searches the element's tag name as written for custom tags and normalised for known tags.",
 IN,"every element of every document, every parameter, every list of negated conditions",
 "Text, comment and template nodes can appear anywhere among children; tests only sample a few arrangements.",
 [S+"ChildCountMatch.cpp",S+"AttributeCountMatch.cpp",S+"OnlyChildMatch.cpp",S+"NegateMatch.cpp",S+"TypeRegexMatch.cpp"],[("counting loops over children","ChildCountMatch::count_child_elements, OnlyChildMatch::matches"),("conjunction of negations","NegateMatch::matches")],observe=["Match::matches"])
p("C08","Attribute and text conditions decide the documented relation",
 "For every attribute or builtin value and every literal: == is equality, ^= prefix, $= suffix, *= substring, = requires every given word to appear delimited by spaces or the ends of the value, =~ finds the pattern anywhere, and a trailing ! accepts exactly when the un-negated condition does not. An element lacking the attribute satisfies only negated conditions, and a bare attribute name tests presence (its negation absence).",
 IN,"every subject string, literal, word list and attribute list",
 "String relations over arbitrary bytes and lengths, including empty, overlapping and repeated occurrences, cannot be sampled.",
 [S+"EqualsTest.cpp",S+"BeginsWithTest.cpp",S+"EndsWithTest.cpp",S+"ContainsTest.cpp",S+"ContainsWordsTest.cpp",S+"StringUtil.cpp",S+"NegateTest.cpp",S+"RegexTest.cpp",S+"AttributeMatch.cpp",S+"FunctionValueMatch.cpp",S+"FunctionMatch.cpp"],[("one test class per operator","*Test::test"),("null subject stands for a missing attribute","AttributeMatch::matches"),("word boundary scan","ContainsWord")],observe=["ValueTest::test","Match::matches"])
p("C09","Whitespace collapsing is exact",
 "Collapsing whitespace yields the non-whitespace runs of the input, in order and unchanged, joined by single spaces, with nothing before the first or after the last; whitespace is exactly space, tab, line feed, form feed and carriage return. The result of collapsing is a fixed point of collapsing.",
 IN,"every byte string",
 "An in-place rewriting loop over arbitrary strings; tests sample a handful.",
 [S+"StringUtil.cpp",S+"CollapseWsPipe.cpp"],[("in-place two-index compaction","TrimAndCollapseWs"),("whitespace classification","IsSpace")],observe=["@text","collapsews"])
p("C10","Text extraction visits every text node once, in order",
 "Stripping tags concatenates, in document order, exactly the text of every text and whitespace node below the element, each once and unchanged. The text builtin is the whitespace-collapsed form of that concatenation in which the content of every non-inline element is set off by line breaks on both sides, while inline elements add nothing.",
 IN,"every node of every document",
 "Depth and arrangement of nodes are unbounded; the inline set has about 35 members of some 150 tags.",
 [S+"NodeUtil.cpp",S+"Builtins.cpp"],[("recursive concatenation","StripTags"),("inline tag set","TagWrapsText"),("composition","NodeText, Builtins")],observe=["@text","@strip-tags"])
p("C11","inner-html serialises the whole subtree faithfully",
 "The inner HTML of an element is the in-order serialisation of all its children: every element as open tag with all its attributes in order (with namespace prefix and quoted value), its serialised content and a matching close tag (or as a self-closed tag exactly for void elements), text as is, comments delimited. Custom elements keep their tag name as written, and nothing is dropped, duplicated or reordered.",
 IN,"every node of every document",
 "Unbounded trees; rare node kinds (comments, templates, foreign attributes, custom and void elements) occur in few tests.",
 [S+"NodeUtil.cpp"],[("mutual recursion over node kinds","SerializeNode / SerializeElement / SerializeAttribute / SerializeElementTag"),("void element set","TagIsSelfClosing")],observe=["@inner-html"])
p("C12","A capture yields the documented name and value or nothing",
 "An attribute capture yields its result name together with the value of the named attribute passed through its pipes, and yields nothing when the node has no such attribute or is not an element; a function capture yields its result name with the function's value passed through its pipes. A rule node's captures are applied in the order they were added, each at most once per element, skipping those that yield nothing.",
 IN,"every node, attribute list, pipe chain and list of captures",
 "Combinations of absent and empty attributes, pipes and captures are unbounded.",
 [S+"AttributeCapture.cpp",S+"FunctionCapture.cpp",S+"Rule.cpp"],[("attribute lookup and pipe application","AttributeCapture::capture"),("ordered collection","Rule::capture")],observe=["Capture::capture","Rule::capture"])
p("C13","String pipes compute their function and chain left to right",
 "A pipe chain applies its stages in the order in which they were appended, each to the previous stage's output. trim removes exactly the leading and trailing characters of its set, tolower/toupper map case per character, prepend/append add exactly their literal on that side, collapsews collapses whitespace, filter yields the first group (or the whole match when there is no group, or the empty string when nothing matches), replace replaces every match.",
 IN,"every input string, every literal, every chain of any length",
 "Chains and strings are unbounded; tests use chains of at most a few pipes.",
 [S+"StringPipe.cpp",S+"TrimPipe.cpp",S+"CasePipe.cpp",S+"PrependPipe.cpp",S+"AppendPipe.cpp",S+"CollapseWsPipe.cpp",S+"RegexPipe.cpp",S+"RegexReplacePipe.cpp"],[("linked chain","StringPipe::pipe / append"),("one transform per class","*Pipe::transform")],observe=["StringPipe::pipe"])
p("C14","Copies are complete and independent",
 "Copying, cloning or copy-assigning a rule, condition, value test, pipe or capture yields an object that behaves identically to the original, including every child, following and nested rule, every condition, capture and pipe stage, also when optional parts are absent and when assigning an object to itself. The original is unchanged, and later changes to or destruction of either leave the other unaffected.",
 ["inputs","histories"],"every object graph buildable through the public API",
 "Deep graphs with absent parts and self-assignment are not sampled; a shallow copy shows only after destruction or mutation.",
 [S+"Rule.cpp",S+"NegateMatch.cpp",S+"NegateTest.cpp",S+"AttributeMatch.cpp",S+"FunctionValueMatch.cpp",S+"AttributeCapture.cpp",S+"FunctionCapture.cpp",S+"StringPipe.cpp",I+"Cloneable.h"],[("deep copy constructors","Rule::Rule(const Rule&) and the classes owning a unique_ptr"),("clone via copy constructor","Cloneable::clone"),("copy and swap","operator=")],observe=["copy construction, copy assignment, clone()"])
p("C15","The rule builder appends at the end and changes nothing else",
 "Each builder operation of a rule changes exactly the part it names: a child, following or nested rule is added after all existing ones at that level, a condition or capture after all existing ones, and a setter changes one attribute of the rule, so that reading it back gives the value set. Everything else about the rule, including its other subtrees, is preserved. An argument that is left out has its documented default.",
 ["inputs","histories"],"every rule tree and every sequence of builder calls",
 "Sibling chains and call sequences are unbounded.",
 [S+"Rule.cpp",I+"Rule.h"],[("walk to the end of the sibling chain","Rule::append_next"),("first child or end of its siblings","Rule::append_child"),("setters","Rule::set_*")],observe=["Rule builder API and accessors"])
p("C16","The parsed tree mirrors the nesting of the text",
 "For every accepted rule text, the produced rule tree has exactly the shape of the text: an element rule inside an open one becomes its child in order, rules at the same level follow each other, and a rule in braces becomes a nested rule of the enclosing open rule. A text whose closing tags or braces do not match the innermost open construct, or that leaves one open, is rejected.",
 IN,"every sequence of opening, self-closing, closing tags and braces",
 "Nesting sequences are unbounded; tests contain short well-formed templates and a few malformed ones.",
 ["libhext/ragel/Parser.cpp.rl",S+"Parser.cpp"],[("stack of stacks of rules","push_rule / pop_rule / push_nested / pop_nested"),("closing tag check","validate_close_tag_or_throw"),("end of input checks","Parser::parse")],[("stacks_","result and work stacks per nesting level","Parser")],["ParseHext"])
p("C17","Exactly the documented language is accepted",
 "A rule text is accepted only if it is derivable from the documented grammar (whitespace, comments, braces, tags with options, traits, :not lists, attribute and builtin patterns, pipes, quoted literals, regexes with flags), and every derivable text is accepted up to mismatched nesting and invalid regular expressions. The decision depends only on the bytes of the text.",
 IN,"every byte string, including NUL and non-ASCII bytes",
 "The recogniser has over 800 states and 256 symbols per state; tests exercise a few hundred paths.",
 ["libhext/ragel/hext-machine.rl",S+"Parser.cpp"],[("generated transition tables and driver loop","Parser::parse")],[("cs","recogniser state","Parser")],["ParseHext"])
p("C18","Every construct denotes its documented condition or capture",
 "Each trait, pattern, operator, literal, regex (with its own flags), pipe and result name written in a rule yields exactly the documented condition or capture, with the literal, numbers and names as written, attached to the rule it is written on and in the order written. No value, flag, pipe or option written for one construct influences another one.",
 IN,"every accepted rule text",
 "Leaks of parse state need particular sequences of constructs; tests parse most constructs in isolation.",
 ["libhext/ragel/hext-machine.rl","libhext/ragel/Parser.cpp.rl",S+"Parser.cpp",S+"PatternValues.cpp",S+"PatternValues.h"],[("semantic actions filling a record of pending values","hext-machine.rl actions"),("record reset after each pattern","PatternValues::reset")],[("pv","pending values of the construct being parsed","Parser::parse")],["ParseHext"])
p("C19","Invalid rule text always ends in a located syntax error",
 "Parsing any text either returns a rule or throws the documented syntax error type, and nothing else, also for numbers too large to represent and invalid regular expressions. The message gives the 1-based line and character of the offending position (or end of input), and the text up to and including that line with correct line numbers and a marker under the offending characters.",
 IN,"every byte string",
 "Error positions and inputs are unbounded, tests compare a few messages.",
 ["libhext/ragel/Parser.cpp.rl",S+"Parser.cpp",S+"StringUtil.cpp"],[("error reporting helpers","throw_* and print_error_location"),("line and column computation","CharPosition, PrintNumberedLines, DecimalWidth")],observe=["ParseHext exception and what()"])
p("C20","Matching never touches invalid memory and always terminates",
 "For every document and rule, matching, capturing and serialising access only existing nodes, attributes and characters, interpret a node only as the kind it is, never overflow signed arithmetic, and terminate. This includes matching or capturing a null node through a rule, the document node, text nodes and detached roots.",
 IN,"every node kind and tree shape, every rule",
 "Out-of-bounds and wrong-union-member reads usually go unnoticed in tests, and need unusual node kinds.",
 [S+"NodeUtil.cpp",S+"RuleMatching.cpp",S+"Rule.cpp",S+"NthChildMatch.cpp",S+"OnlyChildMatch.cpp",S+"ChildCountMatch.cpp",S+"AttributeMatch.cpp",S+"AttributeCapture.cpp",S+"TypeRegexMatch.cpp",S+"StringUtil.cpp"],[("null and kind checks before each access","all functions taking a node"),("index bounds from the children vector","loops over children")],observe=["any public matching or capturing call"])
p("C21","JSON output represents exactly the extracted records",
 "The command line tool prints one JSON object per record, in order, each on its own line in compact mode, or one array of them in array mode when there is at least one; every name of the record occurs once as key, with its value as a string when it occurred once and otherwise with the array of all its values in order. Options only change layout, never content.",
 IN,"every result and option combination",
 "Records with any number of repeated names and empty results are not sampled.",
 ["htmlext/htmlext/Json.cpp","htmlext/htmlext/Json.h"],[("conversion loop with array promotion","PrintJson"),("option bit tests","operator& / operator|")],observe=["htmlext stdout"])
p("C22","Extraction is pure",
 "Matching, capturing and extracting leave the rule and the document unchanged and depend on nothing else, so that repeating an extraction, in any order with others, gives the same result.",
 ["inputs","histories"],"every sequence of extractions over any rules and documents",
 "Hidden state shows only in particular call histories; tests extract once per rule.",
 [S+"Rule.cpp",S+"RuleMatching.cpp",S+"NodeUtil.cpp",S+"Builtins.cpp"],[("const methods and value results","all match/test/pipe/capture classes")],observe=["Rule::extract"])
p("C23","A parsed document is owned once and freed exactly once",
 "A document handle owns its parse result: it is released exactly once, no earlier than its owner is destroyed or assigned to. Moving a handle hands its document to the target: a move-constructed-from handle is empty, and a move assignment either releases the target's previous document or hands it to the source. Containers of documents and returned documents are therefore safe, and nothing is left over when all handles are gone. The root is valid for as long as the owner lives and null for an empty handle.",
 ["inputs","histories"],"every sequence of construct, move, assign and destroy",
 "Tests never move a document handle.",
 [S+"Html.cpp",I+"Html.h"],[("raw owning pointer with destructor","Html")],[("g_outp_","owned parse result or null","Html")],["Html"])
p("C24","The command line tool's exit status and output",
 "The htmlext tool exits with success exactly when all rule texts were parsed, all inputs could be read and every extraction completed; any unreadable file, syntax error, invalid option or exceeded search limit yields a failure status and a message on standard error. With --lint only the rule texts are checked and nothing is extracted. Otherwise, on success, it prints for every rule in order (files before strings) and every document in order the records of that pair as JSON, or with --filter the values of that name, one per line. The text of a document stays in place for as long as the document is used.",
 ["inputs","configurations"],"every command line and every input file",
 "Tests run a fixed list of command lines.",
 ["htmlext/main.cpp","htmlext/htmlext/ProgramOptions.cpp","htmlext/htmlext/File.cpp"],[("try/catch, loops over rules and documents in main","main"),("option validation","ProgramOptions::store_and_validate_or_throw"),("options as values","ProgramOptions::contains / get / get_json_options"),("reading a file or the standard input","ReadFileOrThrow")],observe=["exit status, stdout, stderr"])
p("C25","Language bindings return the same records as the library",
 "For every rule, document and limit the Python, Ruby, PHP and Node bindings return the library's records unchanged: one mapping per record, single values as strings, repeated names as lists in order, and library errors as the host language's errors.",
 IN,"every rule, document and host string",
 "Host-side conversions are generated code plus macros; tests run fixed cases.",
 ["libhext/bindings/python/pyhext.i","libhext/bindings/ruby/rbhext.i","libhext/bindings/php/phphext.i","libhext/bindings/nodejs/src","libhext/bindings/wrapper"],[("SWIG typemaps","*.i")],observe=["hext.Rule.extract in the bindings"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
