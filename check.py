#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of html-extract/hext from /repo's current sources."""
import sys, os, json, time, shutil, tempfile, subprocess
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + "/cppvc", V]
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 << 20)


def known_findings(prop):
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: "):])
    return out


def main():
    import driver
    from driver import Session, run_all, verify_spec, spec_cheats, SAFETY
    import props as P
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="hextv_")
    code = 2
    try:
        code = decide(prop, tier, seed, work, t0, driver, P)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def decide(prop, tier, seed, work, t0, driver, P):
    from driver import Session, run_all, verify_spec, spec_cheats, SAFETY, check_job
    import search
    S = Session(work)
    S.load()
    spec = verify_spec(S)
    cfg = P.PROPS[prop]
    if cfg.get("cli"):
        S.load_cli()
    pred = cfg["pred"] if "pred" in cfg else (lambda c: prop in c.props)
    targets, missing = S.targets(pred)
    res = run_all(S, targets)
    # the contracts of everything called, transitively
    have = set(r.c.id for r in res)
    while True:
        need = set(x for r in res if r.job for x in r.job.called) - set(r.c.name for r in res)
        more, _ = S.targets(lambda c: c.name in need and c.id not in have)
        if not more:
            break
        have |= set(c.id for c, _, _ in more)
        res += run_all(S, more, len(res))
    judged = cfg.get("classes")          # None: every obligation counts
    judge = cfg.get("judge") or (lambda c, o: judged is None or o.cls in judged)
    failed, soft, unsup = [], [], []
    nobl = ndis = 0
    for r in res:
        nobl += r.nobl + r.trivial
        ndis += r.trivial
        if r.status == "proved":
            ndis += r.nobl
            continue
        hard = [o for o in r.failed if judge(r.c, o)]
        ndis += max(0, r.nobl - len(r.failed)) if r.status == "failed" else 0
        if r.status in ("unsupported", "timeout"):
            unsup.append(r)
        elif hard or not r.failed and judged is None and judge(r.c, type("o", (), {"cls": "hint"})):
            failed.append((r, hard or r.failed))
        else:
            soft.append(r)
    vac = []
    if tier == "thorough":
        from vcgen import job_text, run_verus
        from concurrent.futures import ThreadPoolExecutor

        def vone(r):
            if r.status != "proved":
                return None
            txt, off = job_text(r.job, True)
            open(work + "/vac_" + r.file, "w").write(txt)
            v = run_verus(work, "vac_" + r.file, r.c.rlimit)
            n = v["err"].count("assertion failed")
            return (r.c.id, n, r.job.nexits)
        with ThreadPoolExecutor(8) as ex:
            vac = [x for x in ex.map(vone, res) if x]
    extra = []
    for f in cfg.get("extra", []):
        extra.append(f(S, tier, seed))       # {"name","ok","detail","obligations","discharged","bounded":bool,"replay":...}
    for e in extra:
        nobl += e.get("obligations", 0)
        ndis += e.get("discharged", 0)
    problems = []
    if not spec["ok"]:
        problems.append(("specification lemmas", spec["err"][:4000]))
    for r, obs in failed:
        problems.append(("; ".join(str(o) for o in obs[:6]) or "%s: a proof step of the contract is not accepted" % r.c.id, r.err[:6000]))
    for e in extra:
        if not e["ok"] and not e.get("bounded"):
            problems.append((e["name"], e["detail"]))
    found = None
    bounded = []
    words = [w for e in extra for w in e.pop("words", [])]
    if problems or unsup or soft or any(e.get("search") for e in extra) or tier == "thorough" or cfg.get("always_search"):
        budget = cfg.get("budget", 150)
        if tier == "thorough":
            budget = 400
        elif problems:
            budget = 300
        sr = cfg["search"](prop, seed, budget, work) if "search" in cfg else search.run(prop, S, seed, budget, work, [r.c.id for r, _ in failed] + [r.c.id for r in unsup], words)
        found = sr.get("found")
        bounded.append(sr)
        cli = [r.c.id for r in [x for x, _ in failed] + unsup + soft if "C24" in r.c.props]
        if cli and not found and prop == "C20":
            import clisearch
            sr = clisearch.run(prop, seed, 120, work)
            found = sr.get("found")
            bounded.append(sr)
    for e in extra:
        if not e["ok"] and e.get("replay") and not found:
            found = e["replay"]
    known = known_findings(prop)
    for k in known:
        print("KNOWN-FINDING: " + k)
    fns = [r.c.id for r in res if r.status == "proved"]
    cov = {
        "obligations": nobl, "discharged": ndis, "checker_cmd": (res[0].cmd if res and hasattr(res[0], "cmd") else spec["cmd"]),
        "trusted_base": P.TRUST_COMMON + cfg.get("trust", []),
        "back_end": "Verus (Z3)", "functions_under_contract": len(res), "functions_proved": fns,
        "functions_not_proved": [{"function": r.c.id, "status": r.status, "detail": (r.err or "")[:400]} for r in res if r.status != "proved"],
        "contracts_without_definition": missing,
        "solver_time_s": round(sum(r.smt_ms for r in res) / 1000.0, 2), "prover_wall_s": round(sum(r.t for r in res), 1),
        "specification_lemmas_verified": spec["verified"], "specification_lemma_errors": spec["errors"],
        "assumed_in_specification": spec_cheats(S.spec),
        "calls_inlined": sorted(set().union(*[r.job.inlined for r in res if r.job] or [set()])),
        "called_contracts": sorted(set(str(x) for r in res if r.job for x in r.job.called)),
        "assumed_of_callees": sorted(set(str(x) for r in res if r.job for x in r.job.assumes)),
        "notes": S.notes,
    }
    if vac:
        cov["vacuity"] = {"functions": len(vac), "every_exit_reachable": [x[0] for x in vac if x[1] >= x[2]], "exits_not_shown_reachable": [x for x in vac if x[1] < x[2]]}
    if extra:
        cov["other_checks"] = [{k: v for k, v in e.items() if k != "replay"} for e in extra]
    if bounded:
        cov["bounded_not_counted_as_proved"] = [{k: v for k, v in b.items() if k != "found"} for b in bounded]
    rc = 0
    os.makedirs(V + "/evidence/replays", exist_ok=True)
    if found:
        rp = V + "/evidence/replays/%s.txt" % prop
        with open(rp, "w") as f:
            f.write("property %s violated\n\n%s\n\n" % (prop, found))
            for n, t in problems:
                f.write("failed obligation: %s\n" % n)
        print("failing input:\n" + found[:3000])
        for n, _ in problems:
            print("failed obligation: " + n)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    elif problems:
        rp = V + "/evidence/replays/%s.txt" % prop
        with open(rp, "w") as f:
            f.write("property %s: obligations not accepted by the verifier, no failing input found\n\n" % prop)
            for n, t in problems:
                f.write("failed obligation: %s\n%s\n\n" % (n, t))
        for n, _ in problems:
            print("failed obligation: " + n)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        rc = 1
    for r in unsup:
        print("note: %s not proved on this tree (%s): %s" % (r.c.id, r.status, (r.err or "")[:200].replace("\n", " ")))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"), "coverage": cov,
          "assumptions": P.TRUST_COMMON + cfg.get("trust", []) + cfg.get("assume", []), "wall_s": round(time.time() - t0, 1), "violations": rc}
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s: %d functions, %d obligations, %d discharged, %.0f s" % (prop, len(res), nobl, ndis, time.time() - t0))
    return rc


if __name__ == "__main__":
    t = threading.Thread(target=main)
    t.start()
    t.join()
