"""Failing-input search: compiles /repo's current sources with sanitizers next to independent oracles and
tries random inputs.  Never decides that a property holds; it turns a failed obligation into a failing input."""
import os, subprocess, time, sys
from concurrent.futures import ThreadPoolExecutor
import cast
REPO = cast.REPO
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ["-std=c++17", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment,vptr",
         "-I" + REPO + "/libhext/include", "-I" + REPO + "/libhext/src", "-I" + REPO + "/htmlext", "-DHEXT_STATIC"]
JSON_CPP = REPO + "/htmlext/htmlext/Json.cpp"


def build(work):
    d = work + "/replay"
    os.makedirs(d, exist_ok=True)
    srcs = [REPO + "/libhext/src/" + f for f in sorted(os.listdir(REPO + "/libhext/src")) if f.endswith(".cpp")]
    own = [V + "/replay/" + f for f in ("core.cpp", "main.cpp", "lang.cpp", "json.cpp") if os.path.exists(V + "/replay/" + f)]
    fl = list(FLAGS)
    if os.path.exists(V + "/replay/lang.cpp"):
        fl.append("-DWITH_PARSER")
        import grammar
        open(d + "/grammar.h", "w").write(grammar.header())
        fl.append("-I" + d)
    if os.path.exists(V + "/replay/json.cpp"):
        fl.append("-DWITH_JSON")
        if os.path.exists(JSON_CPP):
            srcs.append(JSON_CPP)
    own.sort(key=lambda s: "main" not in s)

    def one(s):
        o = d + "/" + os.path.basename(s) + ".o"
        p = subprocess.run(["clang++"] + fl + (["-O0"] if s in own else []) + (["-fno-sanitize=undefined"] if "json" in os.path.basename(s).lower() else [])   # rapidjson's own headers
                            + ["-I" + V + "/replay", "-c", s, "-o", o], capture_output=True, text=True)
        return (o, p.returncode, p.stderr)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, own + srcs))
    bad = [r for r in rs if r[1]]
    if bad:
        return None, bad[0][2][:1500]
    p = subprocess.run(["clang++"] + fl + [r[0] for r in rs] + ["-lgumbo", "-lboost_regex", "-lboost_program_options", "-Wl,--wrap=gumbo_parse_with_options,--wrap=gumbo_destroy_output", "-o", d + "/harness"], capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[-1500:]
    return d + "/harness", ""


def run(prop, S, seed, budget, work, fns, words=()):
    t0 = time.time()
    exe, err = build(work)
    tb = time.time() - t0
    out = {"search": "random inputs for the functions of %s against independent oracles, ASan+UBSan" % prop, "bound": "%d s, 8 processes" % budget, "build_s": round(tb, 1)}
    if not exe:
        out["error"] = err
        return out
    budget = max(20, budget - tb)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    if words:
        open(work + "/words", "w").write("".join(bytes(w).hex() + "\n" for w in words))
    procs = []
    for i in range(9 if words else 8):
        nf = work + "/note%d" % i
        so, se = open(work + "/so%d" % i, "wb"), open(work + "/se%d" % i, "wb")
        procs.append((subprocess.Popen([exe, prop if i < 8 else "WORDS", str(seed * 8 + i), str(budget), nf] + ([work + "/words", prop] if i == 8 else []), stdout=so, stderr=se, env=env), nf, i))
    cases, found = 0, None
    end = time.time() + budget + 60
    left = list(procs)
    while left and not found and time.time() < end:
        time.sleep(0.1)
        for x in list(left):
            p, nf, i = x
            rc = p.poll()
            if rc is None:
                continue
            left.remove(x)
            o = open(work + "/so%d" % i, errors="replace").read()
            e = open(work + "/se%d" % i, errors="replace").read()
            if rc == 0:
                if "CASES" in o:
                    cases += int(o.split("CASES")[1].split()[0])
                continue
            n = open(nf, "rb").read().split(b"\0")[0].decode("utf-8", "replace") if os.path.exists(nf) else ""
            if "FOUND" in o:
                found = o.split("FOUND\n", 1)[1]
            elif rc in (-14, 142):
                found = n + "\ndoes not terminate within 20 s"
            else:
                found = n + "\nthe code crashed (status %d):\n%s" % (rc, e[:3000])
            break
    for p, _, _ in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    out["cases"] = cases
    if found:
        out["found"] = found
        out["note"] = "a failing input was found"
    return out


if __name__ == "__main__":
    import tempfile
    w = sys.argv[3] if len(sys.argv) > 3 else tempfile.mkdtemp()
    for p in sys.argv[1].split(","):
        r = run(p, None, 1, int(sys.argv[2]), w, [])
        print(p, {k: v for k, v in r.items() if k != "found"})
        if r.get("found"):
            print(r["found"][-2500:])
