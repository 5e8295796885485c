"""Failing-input search for the command line tool: builds htmlext from /repo's current sources (with sanitizers) and runs it on
random command lines whose outcome is known by construction.  Never decides that a property holds."""
import os, re, subprocess, time, random, json, shutil
from concurrent.futures import ThreadPoolExecutor
import cast
REPO = cast.REPO
FLAGS = ["-std=c++17", "-O1", "-g", "-w", "-fsanitize=address", "-I" + REPO + "/libhext/include", "-I" + REPO + "/libhext/src", "-I" + REPO + "/htmlext", "-DHEXT_STATIC"]


def build(work):
    d = work + "/cli"
    os.makedirs(d, exist_ok=True)
    srcs = [REPO + "/libhext/src/" + f for f in sorted(os.listdir(REPO + "/libhext/src")) if f.endswith(".cpp")]
    srcs += [REPO + "/htmlext/main.cpp"] + [REPO + "/htmlext/htmlext/" + f for f in sorted(os.listdir(REPO + "/htmlext/htmlext")) if f.endswith(".cpp")]
    open(d + "/Version_.cpp", "w").write(re.sub(r"@\w+@", "1", open(REPO + "/htmlext/htmlext/Version.cpp.in").read()) + "\nnamespace hext { extern const int version_major = 1; extern const int version_minor = 1; extern const int version_patch = 1; }\n")
    srcs.append(d + "/Version_.cpp")

    def one(s):
        o = d + "/" + os.path.basename(s) + ".o"
        p = subprocess.run(["clang++"] + FLAGS + ["-c", s, "-o", o], capture_output=True, text=True)
        return (o, p.returncode, p.stderr)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, srcs))
    bad = [r for r in rs if r[1]]
    if bad:
        return None, bad[0][2][:1500]
    p = subprocess.run(["clang++"] + FLAGS + [r[0] for r in rs] + ["-lgumbo", "-lboost_regex", "-lboost_program_options", "-o", d + "/htmlext"], capture_output=True, text=True)
    return (d + "/htmlext", "") if p.returncode == 0 else (None, p.stderr[-1500:])


class Case:
    """one command line, the files it names, and what must happen"""

    def __init__(self, r, d):
        self.r, self.d, self.n = r, d, 0
        self.files, self.args, self.stdin = {}, [], b""
        self.make()

    def put(self, data):
        """data: text; None: no such file; "/": a directory"""
        p = self.d + "/f%d" % self.n
        self.n += 1
        self.files[p] = data
        return p

    def rule(self, bad):
        r = self.r
        if bad:
            return r.choice(["<p", "<p @text:x", "<p @text:x/>>", "{", "<p></a>", "<p @nothing:x/>", "</p>", "<p:nth-child(/>", '<p foo=/"/>']), None
        k = r.choice(["x", "y", "title", "a-b"])
        c = r.choice([None, None, "c", "d"])
        w = r.choice(["@text", "@text", "title"])
        tag = r.choice(["p", "p", "x-y"])
        t = "<%s%s %s:%s%s/>" % (tag, ' class="%s"' % c if c else "", w, k, r.choice([" ", "", "\n"]))
        return r.choice(["", "\n", "# note\n"]) + t + r.choice(["", "\n"]), (c, k, w, tag)

    def doc(self):
        r = self.r
        if r.random() < 0.1:
            return "", []
        if r.random() < 0.25:
            # short enough to be kept inside a string object
            x = r.choice("abc123")
            return "<x-y>%s</x-y>" % x, [(None, x, None, "x-y")]
        ps = [(r.choice([None, "c", "d"]), "".join(r.choice("abc\"\\'/é1") for _ in range(r.randrange(0, 8))), r.choice([None, "", "", "t", "a'b/\\"]), r.choice(["p", "p", "x-y"])) for _ in range(r.randrange(0, 4))]
        t = "<html><body>%s</body></html>" % "".join("<%s%s%s>%s</%s>" % (g, ' class="%s"' % c if c else "", ' title="%s"' % a if a is not None else "", x, g) for c, x, a, g in ps)
        if r.random() < 0.05:
            t += "<!-- " + "x" * 20000 + " -->"
        return t, ps

    def make(self):
        r, a = self.r, []
        odds = r.choice([0, 0, 0.15, 0.5])
        bad = lambda w=1.0: r.random() < odds * w
        lint, info = r.random() < 0.15, r.random() < 0.05
        plain = not lint and r.random() < 0.2        # the rule file and the documents without option names
        nr, nd = r.choice([0, 1, 1, 1, 2, 3]) if bad(0.5) or r.random() < .8 else 1, r.choice([1, 1, 2, 3])
        if nr == 0 and not bad():
            nr = 1
        if nd and bad(0.3):
            nd = 0
        rules_ok, rules, frules, srules, pos = True, [], [], [], []
        if plain:
            nr, nd = 1, r.choice([nd, nd, 5, 5, 90])
        used_stdin = False
        for i in range(nr):
            b = bad()
            text, sem = self.rule(b)
            kind = "" if plain else r.choice(["-x", "-x", "-s", "--hext", "--str"])
            if kind in ("-s", "--str"):
                a.append([kind, text])
                srules.append(sem)
                rules_ok &= not b
            else:
                if not b and bad():
                    p, ok = self.put(r.choice([None, "/"])), False
                elif not used_stdin and r.random() < 0.1:
                    p, ok, used_stdin, self.stdin = "-", not b, True, text.encode()
                else:
                    p, ok = self.put(text), not b
                a.append([kind, p])
                frules.append(sem)
                rules_ok &= ok
        docs_ok, docs, names_ = True, [], []
        for i in range(nd):
            text, ps = self.doc()
            if docs and r.random() < 0.15:
                j = r.randrange(len(docs))
                text, ps, p = None, docs[j], names_[j]
            if text is None and p != "-":
                pass
            elif text is None or bad():
                if not plain and not used_stdin and r.random() < 0.3:
                    p = "-missing.html"
                    self.stdin = b"<p>no</p>"
                else:
                    p = self.put(r.choice([None, "/"]))
                docs_ok, ps = False, []
            elif not used_stdin and text and r.random() < 0.1:
                p, used_stdin, self.stdin = "-", True, text.encode()
            else:
                p = self.put(text)
            a.append(["", p] if plain else ["--html=" + p] if p.startswith("-m") else [r.choice(["-i", "--html"]), p])
            docs.append(ps)
            names_.append(p)
        big = False
        if docs and not plain and bad(0.5):
            # many elements: more than 60 searches
            a.insert(r.randrange(len(a) + 1), ["-i", self.put("<b>" * 200)])
            docs.append([])
            a.append(["-m", "60"])
            big = True
        opts_ok = True
        mode = r.choice([None, None, "-c", "-p", "--compact", "--pretty"])
        if mode:
            a.append([mode])
        array = r.random() < 0.3
        if array:
            a.append([r.choice(["-a", "--array"])])
        filt = r.choice(["x", "y", "title", "nokey"]) if r.random() < 0.3 else None
        if filt:
            a.append([r.choice(["-f", "--filter"]), filt])
        limit = None
        if not big and r.random() < 0.3:
            limit = r.choice([0, 10**9, 18446744073709551615] + ([1] if bad(2) else []))
            a.append(["-m", str(limit)] if r.random() < .5 else ["--max-searches", str(limit)])
        if lint:
            a.append([r.choice(["-l", "--lint"])])
        if bad(0.3):
            a.append(r.choice([["--no-such-option"], ["-m", "abc"], ["-f"], ["--max-searches=1x"], ["-Z"]]))
            opts_ok = False
            if a[-1] == ["-f"]:
                self.last = True
        if info:
            a.append([r.choice(["-h", "--help", "-V", "--version"])])
        f_last = [x for x in a if x == ["-f"]]
        a = [x for x in a if x != ["-f"]]
        # files keep their order relative to each other; the options go anywhere
        keyed = [x for x in a if x[0] in ("", "-x", "-s", "--hext", "--str", "-i", "--html") or x[0].startswith("--html=")]
        rest = [x for x in a if x not in keyed]
        for x in rest:
            keyed.insert(r.randrange(len(keyed) + 1), x)
        for x in keyed + f_last:
            self.args += x[1:] if x[0] == "" else x
        names = nr > 0 and (lint or nd > 0)
        if not opts_ok:
            self.want = (1, None)
        elif info:
            self.want = (0, None)
        elif not names or not rules_ok:
            self.want = (1, b"")
        elif lint:
            self.want = (0, b"")
        elif not docs_ok:
            self.want = (1, b"")
        elif limit == 1 or big:
            self.want = (1, None)
        else:
            self.want = (0, [[[{k: t if w == "@text" else a} for c2, t, a, g2 in ps if g == g2 and (c is None or c == c2) and (w == "@text" or a is not None)] for ps in docs] for c, k, w, g in frules + srules])
        if self.want == (1, None):
            pass
        self.array, self.filt = array, filt

    def check(self, exe):
        os.makedirs(self.d, exist_ok=True)
        for p, t in self.files.items():
            if t == "/":
                os.mkdir(p)
            elif t is not None:
                open(p, "wb").write(t.encode())
        try:
            p = subprocess.run([exe] + self.args, input=self.stdin, capture_output=True, timeout=60, cwd=self.d, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return self.say("does not end within 60 s")
        finally:
            shutil.rmtree(self.d, ignore_errors=True)
        want, what = self.want
        if (rc == 0) != (want == 0) or rc not in (0, 1):
            return self.say("exit status %d, expected %d; stderr: %r" % (rc, want, err[-800:]))
        if want and not err:
            return self.say("failure without a message on standard error")
        if not want and err:
            return self.say("success with a message on standard error: %r" % err[:300])
        if what is None:
            return None
        if what == b"":
            return self.say("output although nothing was to be extracted: %r" % out[:300]) if out else None
        if self.filt:
            exp = "".join(rec[self.filt] + "\n" for rule in what for doc in rule for rec in doc if self.filt in rec)
            return None if out == exp.encode() else self.say("printed %r, expected %r" % (out[:400], exp[:400]))
        exp = []
        for rule in what:
            for doc in rule:
                if self.array and doc:
                    exp.append(doc)
                elif not self.array:
                    exp += doc
        got, s, i, dec = [], out.decode("utf-8", "replace"), 0, json.JSONDecoder()
        try:
            while s[i:].strip():
                i += len(s[i:]) - len(s[i:].lstrip())
                o, i = dec.raw_decode(s, i)
                if not (self.array and o == []):
                    got.append(o)
        except ValueError as e:
            return self.say("the output is not JSON: %r" % out[:400])
        return None if got == exp else self.say("printed %r, expected %r" % (out[:400], exp))

    def say(self, what):
        return "htmlext %s\n%s%s\n%s" % (" ".join(repr(x) for x in self.args), "".join("file %s: %s\n" % (p, "missing" if t is None else "a directory" if t == "/" else repr(t[:300])) for p, t in self.files.items()),
                                         "standard input: %r" % self.stdin[:300] if self.stdin else "", what)


def run(prop, seed, budget, work):
    t0 = time.time()
    exe, err = build(work)
    out = {"search": "random command lines with a known outcome for htmlext, ASan", "bound": "%d s, 8 processes" % budget, "build_s": round(time.time() - t0, 1)}
    if not exe:
        out["error"] = err
        return out
    end = time.time() + max(15, budget - (time.time() - t0))
    found, cases = [], [0]

    def go(i):
        r = random.Random(seed * 1000 + i)
        n = 0
        while time.time() < end and not found:
            x = Case(r, work + "/cli/w%d_%d" % (i, n)).check(exe)
            n += 1
            cases[0] += 1
            if x:
                found.append(x)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, range(8)))
    out["cases"] = cases[0]
    if found:
        out["found"], out["note"] = found[0], "a failing input was found"
    return out


if __name__ == "__main__":
    import sys
    x = run("C24", int(sys.argv[3]) if len(sys.argv) > 3 else 1, int(sys.argv[1]), sys.argv[2])
    print({k: v for k, v in x.items() if k != "found"})
    print(x.get("found", ""))
