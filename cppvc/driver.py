"""Per-property runner: extract -> obligations -> Verus -> verdict."""
import sys, os, re, json, time, importlib, itertools, shutil, tempfile, subprocess, traceback
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (VERIF + "/cppvc", VERIF):
    if p not in sys.path:
        sys.path.insert(0, p)
import cast
from cast import *
from vals import *
import vcgen, schema as schema_mod, exec as X
from vcgen import vc_function, job_text, run_verus, tname

REPO = cast.REPO
SRC = REPO + "/libhext/src"
SPECS = ["base", "node", "values", "matching", "lemmas", "html", "parser", "json", "cli"]
SAFETY = {"null", "bounds", "overflow", "union", "ctype", "requires", "decreases", "assert", "div", "shift", "free", "narrow", "noexcept", "uninit"}
JOBS = 8


def consts(g):
    L = ["pub open spec fn %s() -> u32 { %du32 }" % (k, v) for k, v in sorted(g.items()) if v >= 0]
    L += ["pub open spec fn HTMLTAG_ANY() -> i32 { 512i32 }", "pub open spec fn HTMLTAG_UNKNOWN() -> i32 { 152i32 }"]
    return "\n".join(L)


def spec_text(g):
    s = "#![allow(unused_imports)]\nuse vstd::prelude::*;\nverus! {\n" + consts(g) + "\n"
    for f in SPECS:
        p = VERIF + "/spec/%s.rs" % f
        if os.path.exists(p):
            s += X.strlits(with_unfoldings(open(p).read(), "unfoldings_" + f)) + "\n"
    return s + "} // verus!\n"


UNFOLD_HINTS = {"group_loop": "if !(rule is Null) { lemma_stop(first, rule); lemma_next_rule(rule); lemma_next_rule(stop_rule(first, rule)); }"}


def with_unfoldings(txt, mod="unfoldings"):
    """For every opaque specification function f: a proved lemma def_f(args) stating f(args) == body,
    so that proofs unfold one definition at a time."""
    fns = []
    for m in re.finditer(r"#\[verifier::opaque\]\s*\npub open spec fn (\w+)\(([^)]*)\) -> (\w+)", txt):
        i = m.end()
        # the body is the first brace at nesting depth 0 that follows
        j, d = i, 0
        while True:
            ch = txt[j]
            if ch in "([":
                d += 1
            elif ch in ")]":
                d -= 1
            elif ch == "{" and d == 0:
                break
            j += 1
        head = txt[i:j]
        k, d = j, 0
        while True:
            if txt[k] == "{":
                d += 1
            elif txt[k] == "}":
                d -= 1
                if d == 0:
                    break
            k += 1
        w = re.search(r"\bwhen\b(.*?)(\bvia\b|$)", head, re.S)
        fns.append((m.group(1), m.group(2), w.group(1).strip() if w else None, txt[j:k + 1]))
    out = []
    rev = " ".join("reveal(%s);" % f[0] for f in fns)
    for n, ps, w, body in fns:
        args = ", ".join(p.split(":")[0].strip() for p in ps.split(","))
        out.append("pub proof fn def_%s(%s)%s ensures %s(%s) == (%s) { %s %s }" % (n, ps, " requires %s," % w if w else "", n, args, body, rev, UNFOLD_HINTS.get(n, "")))
    if not out:
        return txt
    return txt + "pub mod %s { use super::*; verus! {\n" % mod + "\n".join(out) + "\n} }\npub use %s::*;\n" % mod


def load_contracts():
    cs = {}
    for f in sorted(os.listdir(VERIF + "/contracts")):
        if f.endswith(".py") and f != "__init__.py":
            for c in importlib.import_module("contracts." + f[:-3]).CONTRACTS:
                cs.setdefault(c.name, []).append(c)
    return cs


def spec_cheats(txt):
    """what the specification files take on trust"""
    t = re.sub(r"//.*", "", txt)
    return {k: len(re.findall(k, t)) for k in (r"\bassume\s*\(", r"\badmit\s*\(", r"external_body", r"\baxiom\b", r"assume_specification") if re.findall(k, t)}


class Session:
    def __init__(self, work, extra_srcs=()):
        self.work = work
        self.g = gumbo_enums()
        self.spec = spec_text(self.g)
        open(work + "/spec.rs", "w").write(self.spec)
        self.schema = schema_mod.Schema(self.g)
        self.contracts = load_contracts()
        self.flat = {k: (v if len(v) > 1 else v[0]) for k, v in self.contracts.items()}
        self.notes = []
        self.tus = []

    def load(self):
        srcs = sorted(f for f in os.listdir(SRC) if f.endswith(".cpp"))
        u = self.work + "/all.cpp"
        with open(u, "w") as f:
            f.write("".join('#include "%s/%s"\n' % (SRC, s) for s in srcs))
        try:
            self.tus = [TU(u)]
        except Unsupported as e:
            # e.g. file-local helpers of the same name in two files: one unit per file
            self.notes.append("combined unit not parsable (%s); units parsed one by one" % str(e)[:200])
            with ThreadPoolExecutor(JOBS) as ex:
                def one(s):
                    try:
                        return TU(SRC + "/" + s)
                    except Unsupported as e2:
                        self.notes.append(str(e2)[:300])
                        return None
                self.tus = [t for t in ex.map(one, srcs) if t]
        self.defs = {}
        for tu in self.tus:
            for q, d in tu.functions():
                self.defs.setdefault(q, []).append((tu, d))
        self.parser_pieces()

    def load_cli(self):
        """the command line tool's own sources (a unit of their own)"""
        try:
            tu = TU(REPO + "/htmlext/htmlext/Json.cpp", filters=("htmlext",), incs=[REPO + "/libhext/include", REPO + "/htmlext"])
        except Unsupported as e:
            self.notes.append(str(e)[:300])
            return
        for q, d in tu.functions():
            if q.startswith("htmlext::PrintJson"):
                self.defs.setdefault(q, []).append((tu, d))
        # main and what it is made of.  main.cpp is put into a namespace (after what it includes), so that clang's dump selects it
        u = self.work + "/cli.cpp"
        try:
            lines = open(REPO + "/htmlext/main.cpp").read().split("\n")
        except OSError as e:
            self.notes.append(str(e))
            return
        inc = lambda l: re.match(r"\s*#\s*include\b", l)
        with open(u, "w") as f:
            f.write("\n".join(l for l in lines if inc(l)) + "\nnamespace htmlext_main {\n#line 1 \"%s/htmlext/main.cpp\"\n" % REPO)
            f.write("\n".join("" if inc(l) else l for l in lines) + "\n}\n")
            f.write("".join('#include "%s/htmlext/htmlext/%s"\n' % (REPO, s) for s in ("ProgramOptions.cpp", "ErrorOutput.cpp", "File.cpp")))
        try:
            tu = TU(u, filters=("ext",), incs=[REPO + "/libhext/include", REPO + "/htmlext"], keep=("hext", "htmlext", "htmlext_main"))
        except Unsupported as e:
            self.notes.append(str(e)[:300])
            return
        for q, d in tu.functions():
            if q == "htmlext_main::main":
                self.defs.setdefault("main", []).append((tu, d))
            elif q.startswith("htmlext::") and not q.startswith("htmlext::PrintJson"):
                self.defs.setdefault(q, []).append((tu, d))

    def parser_pieces(self):
        """the pieces of Parser::parse: the action bodies by the name the grammar gives them, and the driver's segments"""
        import parsevc, ragel
        import contracts.machine as MC
        self.pieces, self.machine, self.machine_err = None, None, ""
        try:
            self.tables = ragel.Tables(ragel.load())
            self.machine = ragel.product(self.tables)
        except ragel.Shape as e:
            self.machine_err = str(e)
            self.notes.append("transition tables not read: " + str(e))
        for tu, d in self.defs.get(parsevc.PARSE, [])[:1]:
            try:
                sys.setrecursionlimit(max(20000, sys.getrecursionlimit()))
                self.pieces = pc = parsevc.Pieces(tu, d)
            except Unsupported as e:
                self.machine_err = self.machine_err or str(e)
                self.notes.append("Parser::parse not cut into pieces: " + str(e))
                return
            for (w, k), n in sorted(self.machine["names"].items()) if self.machine else []:
                if isinstance(n, str) and (w, k) in pc.case:
                    self.defs.setdefault(parsevc.PARSE + "/" + n, []).append((tu, parsevc.fragment(pc, w, k)))
            for c in MC.CONTRACTS:
                self.defs.setdefault(c.name, []).append((tu, parsevc.segment(pc, c.segment)))

    def targets(self, pred):
        """(contract, tu, decl) for every definition a selected contract covers"""
        out, missing = [], []
        for n, l in self.contracts.items():
            for c in l:
                if c.inline or c.assumed or not pred(c):
                    continue
                hit = False
                seen = set()
                for tu, d in self.defs.get(n, []):
                    if n.startswith("hext::Cloneable::") and (tu.cls_of.get(d["id"]) or {}).get("kind") != "ClassTemplateSpecializationDecl":
                        continue
                    if c.sig and not re.search(c.sig, d["type"]["qualType"]):
                        continue
                    k = (d["type"]["qualType"], line_of(d), (tu.cls_of.get(d["id"]) or {}).get("id") if len(self.tus) == 1 else "")
                    if k in seen:
                        continue
                    seen.add(k)
                    hit = True
                    out.append((c, tu, d))
                if not hit:
                    missing.append(c.id)
        return out, missing


class Result:
    def __init__(self, c):
        self.c = c
        self.status = None      # proved | failed | unsupported | timeout
        self.failed = []        # Obl
        self.nobl = 0
        self.trivial = 0
        self.t = 0.0
        self.err = ""
        self.job = None
        self.file = ""
        self.smt_ms = 0


def run_job(S, c, tu, d, choice=None, tag=""):
    r = Result(c)
    try:
        job = vc_function(tu, S.schema, S.flat, c, d, choice)
    except Unsupported as e:
        r.status, r.err = "unsupported", str(e)
        return r
    except RecursionError as e:
        r.status, r.err = "unsupported", "recursion limit"
        return r
    except Exception as e:
        r.status, r.err = "unsupported", "%s: %s" % (type(e).__name__, e)
        r.trace = traceback.format_exc()
        return r
    return check_job(S, r, job, tag)


def check_job(S, r, job, tag="", vac=False):
    c = job.c
    txt, off = job_text(job)
    fn = "%s%s.rs" % (tname(c), tag)
    open(S.work + "/" + fn, "w").write(txt)
    v = run_verus(S.work, fn, c.rlimit)
    r.job, r.file, r.t = job, fn, v["t"]
    r.nobl, r.trivial = len(job.obls), len(job.trivial)
    r.cmd = v["cmd"]
    try:
        r.smt_ms = v["out"]["times-ms"]["smt"]["total"]
    except Exception:
        r.smt_ms = 0
    res = v["out"].get("verification-results", {})
    if v["rc"] == 0 and res.get("errors") == 0 and res.get("verified", 0) >= 1:
        r.status = "proved"
        return r
    r.err = v["err"]
    om = dict(job.obls)
    bad = sorted(set(int(x) for x in re.findall(r"--> %s:(\d+)" % re.escape(fn), v["err"])))
    # only lines reported as failed assertions; a rust error means the text itself is not accepted
    for b in bad:
        if b - off in om and om[b - off] not in r.failed:
            r.failed.append(om[b - off])
    if re.search(r"rlimit|Resource limit|timeout", v["err"]) and not re.search(r"assertion failed", v["err"]) or v["rc"] == 124:
        r.status = "timeout"
    elif r.failed and res:
        r.status = "failed"
    elif res and res.get("errors"):
        r.status = "failed"     # a proof step (hint) failed
    else:
        r.status = "unsupported"
        r.err = "the prover does not accept the generated text: " + v["err"][:1500]
    return r


ALT_BUDGET = 240       # seconds spent on other readings of one function


def with_alternatives(S, c, tu, d, tag=""):
    """the function against its contract: with the loop annotations as written, with the other annotations the contract
    has, and with the roles of loop variables read differently (all only help the proof: what is proved is the same)"""
    r = run_job(S, c, tu, d, None, tag)
    if r.status not in ("failed", "unsupported"):
        return r
    t0 = time.time()
    tried = [(c, r, tag)]
    for i, c2 in enumerate(c.shapes()):
        if time.time() - t0 > ALT_BUDGET:
            break
        r2 = run_job(S, c2, tu, d, None, tag + "_shape%d" % i)
        if r2.status == "proved":
            return r2
        tried.append((c2, r2, tag + "_shape%d" % i))
    for c2, r1, tg in tried:
        if r1.status != "failed" or not r1.job:
            continue
        # a role read wrongly shows in an invariant of that loop
        bad = set(int(m.group(1)) for o in r1.failed for m in [re.search(r"loop (\d+) ", str(o))] if m)
        loops = [l for l, v in r1.job.ambiguous.items() if v > 1 and (not bad or l in bad)]
        n = 0
        for l in loops:
            # at most 12 ways of reading the roles, each once (three variables of one kind have six)
            seen = set()
            cands = r1.job.role_cands.get(l, [])
            for ch in [(a, b, 0) for a in range(3) for b in range(2)] + [(a, b, 1) for a in range(3) for b in range(2)]:
                key = tuple(x % max(1, k) for x, k in zip(ch, cands))
                if key in seen:
                    continue
                seen.add(key)
                n += 1
                if n > 16 or time.time() - t0 > ALT_BUDGET:
                    break
                r2 = run_job(S, c2, tu, d, {l: list(ch)}, tg + "_alt")
                if r2.status == "proved":
                    return r2
    if r.status == "failed" and r.job and r.job.bare_loops:
        # a loop the contract says nothing about: what fails is the proof, the code may be right
        r.status, r.failed = "unsupported", []
        r.err = "loop %s has no annotation; %s" % (", ".join(map(str, sorted(r.job.bare_loops))), r.err)
    return r


def run_all(S, targets, base=0):
    def one(x):
        i, (c, tu, d) = x
        return with_alternatives(S, c, tu, d, "_%d" % (base + i))
    sys.setrecursionlimit(20000)
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, enumerate(targets)))


def verify_spec(S, theorems=()):
    """the specification's own proof functions"""
    open(S.work + "/root.rs", "w").write('#[path="spec.rs"] pub mod spec;\nuse vstd::prelude::*;\nverus!{ fn main(){} }\n')
    t0 = time.time()
    cmd = ["verus", "root.rs", "--multiple-errors", "5", "--num-threads", str(JOBS), "--output-json", "--rlimit", "60"]
    p = subprocess.run(cmd, cwd=S.work, capture_output=True, text=True)
    try:
        o = json.loads(p.stdout[p.stdout.index("{"):])["verification-results"]
    except Exception:
        o = {}
    return {"ok": p.returncode == 0, "verified": o.get("verified", 0), "errors": o.get("errors", -1), "t": time.time() - t0, "err": p.stderr, "cmd": " ".join(cmd)}
