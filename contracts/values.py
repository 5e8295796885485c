"""Captures, pipes, and construction/copying of conditions, captures and pipes (C12, C13, C14)."""
from vcgen import Contract, Loop

CONTRACTS = []


def F(*a, **k):
    CONTRACTS.append(Contract(*a, **k))


# ---- pipes (C13)
F("hext::StringPipe::pipe", ["str"], ret="pipe_all($this, $str)", props=["C13"], scc="pipe", decr=["pipe_len($this)"], entry=["lemma_pipe_len($this);"])
F("hext::StringPipe::append", ["p"], out={"this": "pipe_append($this, $p)"}, props=["C13"], scc="pipeappend", decr=["pipe_len($this)"], entry=["lemma_pipe_len($this);"])
for cls in ("AppendPipe", "PrependPipe", "CasePipe", "CollapseWsPipe", "RegexPipe", "RegexReplacePipe", "TrimPipe"):
    F("hext::%s::transform" % cls, ["str"], ret="pipe_fn($this.k, $str)", overrides="StringPipe", props=["C13"],
      entry=["lemma_trim($str, $this.k->TrimPipe_trim_any_of);"] if cls == "TrimPipe" else [])

# ---- captures (C12)
for cls in ("AttributeCapture", "FunctionCapture"):
    F("hext::%s::capture" % cls, ["node"], requires=["!($node is Null)"] + (["!($this.func is Null)"] if cls[0] == "F" else []),
      ret="cap_of($this, $node)", overrides="Capture", props=["C12"])

# ---- construction (C14, C15) and copying (C14): every object is a function of its constructor arguments, a copy is equal to its source
H = "hext::"


# a condition, test, pipe or capture is what its constructor was given: part of what the property of its kind says
CTOR_PROPS = {"NthChildMatch": ["C06"], "OnlyChildMatch": ["C07"], "ChildCountMatch": ["C07"], "AttributeCountMatch": ["C07"], "TypeRegexMatch": ["C07"],
              "AttributeMatch": ["C08"], "FunctionMatch": ["C08"], "FunctionValueMatch": ["C08"], "NegateMatch": ["C07"], "NegateTest": ["C08"], "RegexTest": ["C08"],
              "EqualsTest": ["C08"], "BeginsWithTest": ["C08"], "EndsWithTest": ["C08"], "ContainsTest": ["C08"], "ContainsWordsTest": ["C08"],
              "AttributeCapture": ["C12"], "FunctionCapture": ["C12"], "AppendPipe": ["C13"], "PrependPipe": ["C13"], "CasePipe": ["C13"],
              "RegexPipe": ["C13"], "RegexReplacePipe": ["C13"], "TrimPipe": ["C13"]}


def CTOR(cls, params, ret, sig=None, variant="new", **k):
    F(H + cls + "::" + cls, params, ret=ret, sig=sig, props=["C15"] + CTOR_PROPS.get(cls, []), variant=variant, **k)


def COPY(cls, loops=(), assign=True, vt=None):
    F(H + cls + "::" + cls, ["other"], sig=r"\(const (hext::)?%s &\)" % cls, ret="$other", sdecr="$other", props=["C14"], variant="copy", loops=loops)
    if assign:
        F(H + cls + "::operator=", ["other"], sig=r"\(const (hext::)?%s &\)" % cls, ret="*this", out={"this": "$other"}, props=["C14"], loops=loops)
        F(H + cls + "::operator=", ["other"], sig=r"\(const (hext::)?%s &\)" % cls, ret="*this", out={"this": "$this"}, props=["C14"], alias="other", variant="self", loops=loops)


for cls, fld in (("EqualsTest", "lit"), ("BeginsWithTest", "lit"), ("EndsWithTest", "lit"), ("ContainsTest", "lit")):
    CTOR(cls, ["lit"], "TestV::%s{lit: $lit}" % cls, sig=r"\(std::string\)")
CTOR("ContainsWordsTest", ["words"], "TestV::ContainsWordsTest{words: words_of($words)}", sig=r"\(std::string\)")
CTOR("ContainsWordsTest", ["words"], "TestV::ContainsWordsTest{words: $words}", sig=r"\(std::vector<", variant="list")
CTOR("RegexTest", ["rx"], "TestV::RegexTest{rx: $rx}", sig=r"\(boost::")
CTOR("NegateTest", ["t"], "TestV::NegateTest{test: $t}", sig=r"\(std::unique_ptr<")
COPY("NegateTest")

CTOR("AttributeCountMatch", ["n"], "MatchV::AttributeCountMatch{attribute_count: $n as u32}", sig=r"\(unsigned")
CTOR("ChildCountMatch", ["n"], "MatchV::ChildCountMatch{child_count: $n as u32}", sig=r"\(unsigned")
CTOR("AttributeMatch", ["a", "t"], "MatchV::AttributeMatch{attr_name: $a, test: $t}", sig=r"\(std::string", defaults={"t": "None"})
CTOR("FunctionMatch", ["f"], "MatchV::FunctionMatch{func: $f}", sig=r"\(MatchFunction")
CTOR("FunctionValueMatch", ["f", "t"], "MatchV::FunctionValueMatch{func: $f, test: $t}", sig=r"\(CaptureFunction")
CTOR("NegateMatch", ["v"], "MatchV::NegateMatch{matches: $v}", sig=r"\(std::vector<")
CTOR("NegateMatch", ["m"], "MatchV::NegateMatch{matches: seq![$m]}", sig=r"\(std::unique_ptr<", variant="one")
CTOR("NthChildMatch", ["a", "b", "o"], "MatchV::NthChildMatch{step: $a as i32, shift: $b as i32, options: $o as u32}", sig=r"\(int, int", defaults={"o": "2"})
CTOR("NthChildMatch", ["ab", "o"], "MatchV::NthChildMatch{step: $ab.0, shift: $ab.1, options: $o as u32}", sig=r"\(std::pair<", variant="pair", defaults={"o": "2"})
CTOR("OnlyChildMatch", ["o"], "MatchV::OnlyChildMatch{options: $o as u32}", defaults={"o": "2"}, sig=r"\((OnlyChildMatch::)?Option")
CTOR("TypeRegexMatch", ["rx"], "MatchV::TypeRegexMatch{rx: $rx}", sig=r"\(boost::")
F(H + "NegateMatch::append_match", ["m"], out={"this.matches": "$this.matches.push($m)"}, props=["C15"])
COPY("AttributeMatch")
COPY("FunctionValueMatch")
COPY("NegateMatch", loops=[Loop(inv=["$cur.matches =~= $range.subrange(0, $i)"], exit_hints=["assert($cur.matches =~= $range);"])])

CTOR("AttributeCapture", ["a", "r", "p"], "CapV::AttributeCapture{attr_name: $a, name: $r, pipe: $p}", defaults={"p": "None"}, sig=r"\(std::string")
CTOR("FunctionCapture", ["f", "r", "p"], "CapV::FunctionCapture{func: $f, name: $r, pipe: $p}", defaults={"p": "None"}, sig=r"\(CaptureFunction")
COPY("AttributeCapture")
COPY("FunctionCapture")

for cls, ps, e in (("AppendPipe", ["s"], "AppendPipe{suffix: $s}"), ("PrependPipe", ["s"], "PrependPipe{prefix: $s}"), ("CasePipe", ["o"], "CasePipe{option: $o as u32}"),
                   ("RegexPipe", ["rx"], "RegexPipe{regex: $rx}"), ("RegexReplacePipe", ["rx", "r"], "RegexReplacePipe{regex: $rx, replace: $r}"),
                   ("TrimPipe", ["s"], "TrimPipe{trim_any_of: $s}")):
    CTOR(cls, ps, "PipeV{k: PipeK::%s, next: None}" % e, defaults={"CasePipe": {"o": "2"}, "TrimPipe": {"s": "seq![32i8]"}}.get(cls), sig=r"\((std::string|boost::|(CasePipe::)?Option)")
F(H + "StringPipe::operator=", ["other"], ret="*this", out={"this.next": "$other.next"}, props=["C14"])
F(H + "StringPipe::operator=", ["other"], ret="*this", out={}, alias="other", variant="self", props=["C14"])
F(H + "Cloneable::clone", ret="Some(Box::new($this))", sdecr="$this", props=["C14"])
