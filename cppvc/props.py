"""What decides each property: theorems of the specification it needs, the replay search that turns a
failed obligation into a failing input, and the wording for MANIFEST/evidence."""
import driver
import extras

TECH = "contract-based deductive verification of the C++ sources (clang AST -> verification conditions -> Verus/Z3), function by function"

TRUST_COMMON = [
    "clang 18 parses the sources of /repo/libhext/src (one combined unit, build configuration Debug semantics: assert() is an obligation)",
    "cppvc (this directory's extractor): C++ statement semantics -> verification conditions; no statement is dropped, unknown constructs are rejected as unsupported",
    "Verus 0.2026.09.13 and Z3 discharge the conditions",
    "models of the standard library used by the code (std::string, vector, optional, unique_ptr, streams; cppvc/stl.py, spec/base.rs)",
    "Gumbo: a parsed document is a finite tree of nodes with consistent parent/index links (spec/node.rs); fewer than 2^31-1 children per node",
    "boost::regex and boost::algorithm/tokenizer behave as their models in spec/base.rs (regex matching itself is an uninterpreted total function)",
    "reference parameters of a function do not alias each other unless a contract variant says so; inputs shorter than 2^31-2 bytes",
    "memory allocation succeeds",
]

PROPS = {}


def P(id, **k):
    PROPS[id] = k


for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"):
    P(i)
EXTRACTION = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C22"}
P("C22", pred=lambda c: bool(EXTRACTION & c.props), classes={"frame", "uninit", "free"},
  note="Every function of the extraction is translated to a term over its arguments alone (a write to static, global or mutable state is not translatable and sends the "
       "function to the bounded search), and every frame obligation (the object and the arguments a function does not name as results are unchanged) is discharged for all inputs.")


def move_only(S, tier, seed):
    """the ownership proof covers every way to make a handle: the compiler confirms there is no copy"""
    import subprocess
    src = S.work + "/moveonly.cpp"
    open(src, "w").write("#include \"hext/Html.h\"\n#include <type_traits>\nusing H = hext::Html;\n"
                         "static_assert(!std::is_copy_constructible_v<H>, \"handle can be copied\");\nstatic_assert(!std::is_copy_assignable_v<H>, \"handle can be copy-assigned\");\n"
                         "static_assert(!std::is_trivially_destructible_v<H>, \"handle has no destructor\");\nint main() {}\n")
    p = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-I" + driver.REPO + "/libhext/include", src], capture_output=True, text=True)
    return {"name": "Html/ownership: a document handle cannot be copied", "ok": p.returncode == 0, "detail": p.stderr[:1500], "obligations": 3, "discharged": 3 if p.returncode == 0 else 0}


P("C23", extra=[move_only], trust=["Gumbo: gumbo_parse_with_options returns a fresh result, gumbo_destroy_output releases exactly it; nothing else releases a parse result"])
def machine(p):
    return [extras.tables, extras.language(p), extras.facts, extras.numbers, extras.fresh]


COMPOSE = ["composition: the driver's pieces meet at their labels (each ends only where the next one's condition holds); the argument that running them from 'start' to '_out' performs, for a text, "
           "the actions the grammar's automaton performs for it is by induction over the text from the relation computed in cppvc/ragel.py, and is not itself machine-checked",
           "clang's AST gives the machine's labels, switch cases and table declarations; the table values are read from the source text of Parser.cpp",
           "the documented language is cppvc/grammar.py (written from hext's documentation, independent of the .rl file)",
           "forming (not reading through) a pointer one or two elements before a transition table is not an obligation"]
def fragment(c):
    return getattr(c, "fragment", False)


SAFE = driver.SAFETY
# whether a text is accepted is decided by the machine and by what the actions and helpers throw
def parser(c):
    return c.name.startswith("hext::Parser::")


P("C16", extra=machine("C16"), assume=COMPOSE, pred=lambda c: "C16" in c.props or fragment(c), judge=lambda c, o: "C16" in c.props and o.cls != "message")
P("C17", extra=machine("C17"), assume=COMPOSE, pred=lambda c: "C17" in c.props or fragment(c), judge=lambda c, o: o.cls == "throws" if parser(c) and not hasattr(c, "segment") else "C17" in c.props and o.cls != "message")
P("C18", extra=machine("C18"), assume=COMPOSE, judge=lambda c, o: o.cls != "message" and ("C18" in c.props or not c.props & {"C16", "C17", "C19"}))
P("C19", extra=machine("C19"), assume=COMPOSE, pred=lambda c: "C19" in c.props or fragment(c), judge=lambda c, o: "C19" in c.props or parser(c) and o.cls in ("throws", "message"))
P("C21", cli=True, trust=["rapidjson: a value, its members and elements behave as the model of cppvc/rjson.py / spec/json.rs (first member of a name, move on assignment and insertion); the text the writers produce for a value is an uninterpreted function of the value and the layout, and reads back as that value",
                          "the option set passed in has only the two documented bits; names and values are shorter than 2^31 bytes"],
  assume=["which options main() passes, and its --filter output, are decided by C24"])
import clisearch
P("C24", cli=True, search=clisearch.run, judge=lambda c, o: "C24" in c.props,
  trust=["boost::program_options: a command line is either refused with an exception derived from its error class or accepted, with values of the declared types; how it is split into options is an uninterpreted "
         "function of the declared options, the positional names and the arguments (vm_wf, axiom_cmd_parse in spec/cli.rs)",
         "files: opening a name succeeds or not, reading it yields its text or breaks, and none of this changes during a run; the standard input is named at most once",
         "std::cout and std::cerr accept everything that is written to them",
         "a document depends only on the text that is parsed; a rule as it was built and as it is matched are the same tree (rule_at)",
         "the program has at least its name as argument; files are shorter than 2^31-16 bytes; records' names and values are shorter than 2^31 bytes (sizes_ok)",
         "the lifetime of main()'s local variables: that html_contents outlives parsed_html and does not move its strings is not an obligation"],
  assume=["PrintVersion prints some text; the texts of error messages other than that they are not empty"])
P("C20", cli=True, extra=[extras.tables, extras.language("C20"), extras.facts, extras.numbers], assume=COMPOSE, pred=lambda c: True, classes=driver.SAFETY)
NOTE = ("Every obligation generated from the current sources of the functions under contract is discharged for all inputs (no bound); "
        "trusted: the extractor, the C++ library models, Gumbo's tree shape, boost regex, Verus/Z3 (full list in the evidence file).")
NA = {
    "C25": "the bindings are typemap and exception fragments that become C++ only when SWIG expands them against the Python, Ruby or PHP runtime (Node: against its addon API); deciding the property needs "
           "contracts for four host object models with shared, reference-counted mutable objects, which this machinery's value semantics cannot express, and none of the bindings is part of this build",
}
