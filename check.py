#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]   decide one property for /repo's current working tree
check.py --replay FILE                  replay a counterexample against the unmodified code"""
import argparse, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vlib"))
import build  # noqa: E402

WORKERS = int(os.environ.get("VX_WORKERS", "8"))
EVIDENCE = os.path.join(VERIF, "evidence")


def jsonl(path):
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                out.append(json.loads(line))
    return out


TOO_BIG = "a list that does not fit into memory"


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def replay_native(binary, items):
    """Runs the recorded inputs on the unmodified code; one result per item."""
    # those that are expected to take the process down come last, each on its own
    big = [i for i, it in enumerate(items) if TOO_BIG in it.get("detail", "")]
    if big:
        rest = replay_native(binary, [it for i, it in enumerate(items) if i not in big])
        out, rest = [], iter(rest)
        for i, it in enumerate(items):
            out.append(replay_big(binary, it) if i in big else next(rest))
        return out
    if not items:
        return []
    out = []
    chunk = max(1, (len(items) + WORKERS - 1) // WORKERS)
    procs = []
    d = tempfile.mkdtemp(prefix="vx-replay-")
    try:
        for i in range(0, len(items), chunk):
            p = os.path.join(d, "%d.jsonl" % i)
            with open(p, "w") as f:
                for it in items[i:i + chunk]:
                    f.write(json.dumps(it) + "\n")
            procs.append((subprocess.Popen([binary, "replay", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True),
                          len(items[i:i + chunk])))
        for p, n in procs:
            try:
                so, se = p.communicate(timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                so, se = p.communicate()
            res = [json.loads(l) for l in so.splitlines()]
            while len(res) < n:
                res.append({"mismatch": "replay process died: %s" % se[-300:]})
            out += res
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def replay_big(binary, item):
    with tempfile.NamedTemporaryFile("w", prefix="vx-replay-", suffix=".jsonl") as f:
        f.write(json.dumps(item) + "\n")
        f.flush()
        try:
            p = subprocess.run([binary, "replay", f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits, timeout=300)
        except subprocess.TimeoutExpired:
            return {"failed": "no end within 300 s: " + TOO_BIG}
        if p.returncode != 0:
            return {"failed": "the process ran out of memory: %s" % p.stderr[-200:]}
        return json.loads(p.stdout.splitlines()[0])


def known_findings():
    return [k for k in jsonl(os.path.join(VERIF, "known_findings.jsonl")) if k.get("status") == "known"]


def finding_of(v, known):
    """The harness tells a known finding by a label of its own."""
    m = re.match(r"known (F\w+)", v["label"])
    return next((k for k in known if m and k["id"] == m.group(1)), None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=int)
    a = ap.parse_args()
    t0 = time.time()
    try:
        if a.replay:
            return do_replay(a.replay)
        return do_check(a, t0)
    except build.BuildError as e:
        print("ERROR: cannot build the checker from this tree\n%s" % e)
        return 2


def rust_programs(hx, prop, tier):
    """The property's Rust programs, translated by the tree's own translator."""
    d = build.translate(hx, prop, tier)
    if d:
        os.environ["VX_RUST"] = d


def do_replay(path):
    j = json.load(open(path))
    rust_programs(build.build_all(), j["prop"], j["tier"])
    r = replay_native(build.build_native(), [j])[0]
    print(json.dumps(r, indent=1))
    if r.get("failed"):
        print("reproduced: %s" % r["failed"])
        return 1
    return 0


def do_check(a, t0):
    prop, tier = a.prop, a.tier
    sym = build.build_all()
    rust_programs(sym, prop, tier)
    t_build = time.time() - t0
    native = {}

    def nat():
        try:
            native["bin"] = build.build_native()
        except build.BuildError as e:
            native["err"] = str(e)
    th = threading.Thread(target=nat)
    th.start()

    quick = tier == "quick"
    budget = a.budget or (540 if quick else 5400)
    # the solver's answers are cross-checked with cvc5 now and then
    args = ["--tier", tier, "--budget", str(budget), "--timeout", "15000" if quick else "60000", "--cross", "97" if quick else "41"]
    if a.only:
        args += ["--only", a.only]
    d = tempfile.mkdtemp(prefix="vx-run-")
    try:
        claim = os.path.join(d, "claim")
        os.mkdir(claim)
        procs = []
        for w in range(WORKERS):
            out = os.path.join(d, "out%d" % w)
            err = open(os.path.join(d, "err%d" % w), "w")
            procs.append(subprocess.Popen([sym, "run", prop, "--claim", claim, "--out", out] + args, stderr=err, stdout=subprocess.DEVNULL))
        deadline = time.time() + budget + 120
        died = []
        for w, p in enumerate(procs):
            try:
                rc = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            if rc != 0:
                died.append("worker %d ended with %s: %s" % (w, rc, open(os.path.join(d, "err%d" % w)).read()[-400:]))
        errs = "".join(open(os.path.join(d, "err%d" % w)).read() for w in range(WORKERS))
        recs, cover, sites = [], set(), 0
        for w in range(WORKERS):
            try:
                rows = jsonl(os.path.join(d, "out%d" % w))
            except ValueError as e:
                rows = []
                died.append("worker %d wrote garbage: %s" % (w, e))
            for r in rows:
                if "coverage" in r:
                    cover |= set(r["coverage"])
                    sites = r["sites"]
                else:
                    recs.append(r)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    t_sym = time.time() - t0 - t_build
    th.join()

    errors = list(died)
    if "ENCODING ERROR" in errs or "SOLVER DISAGREEMENT" in errs:
        errors.append("solver: " + errs[:600])
    names = subprocess.run([sym, "list", prop, "--tier", tier], stdout=subprocess.PIPE, text=True).stdout.split("\n")[:-1]
    if a.only:
        names = [n for n in names if a.only in n]
    done = [r for r in recs if not r.get("skipped")]
    missing = set(names) - {r["case"] for r in recs}
    if missing and not died:
        errors.append("cases without a result: %s" % sorted(missing)[:5])
    skipped = [r["case"] for r in recs if r.get("skipped")]

    # violations
    viols = []
    for r in done:
        for v in r["violations"]:
            viols.append(dict(v, case=r["case"], prop=prop, tier=tier))
    if "bin" not in native:
        errors.append("native build: " + native.get("err", "?"))
    repro = replay_native(native["bin"], viols) if "bin" in native else []
    known = known_findings()
    new, old = [], {}
    rdir = os.path.join(EVIDENCE, "replay")
    for v, r in zip(viols, repro):
        if not r.get("failed"):
            errors.append("a counterexample of case `%s` (%s %s) does not reproduce on the unmodified code: %s; inputs %s" % (
                v["case"], v["label"], v["detail"], r.get("mismatch"), v["vars"][:40]))
            continue
        v["native"] = r["failed"]
        k = finding_of(v, known)
        if k:
            old.setdefault(k["id"], (k, []))[1].append(v)
        else:
            new.append(v)

    # validation of the symbolic engine: completed paths, executed by the unmodified code
    traces = []
    for r in done:
        for t in r["traces"]:
            traces.append({"prop": prop, "tier": tier, "case": r["case"], "vars": t["vars"], "notes": t["notes"]})
    limit = 400 if quick else 4000
    if len(traces) > limit:
        step = len(traces) / float(limit)
        traces = [traces[int(i * step)] for i in range(limit)]
    validated = 0
    if "bin" in native and not new:
        for t, r in zip(traces, replay_native(native["bin"], traces)):
            keep = lambda ns: [list(n) for n in ns if "\u27e6" not in n[1]]
            mine, theirs = keep(t["notes"]), [list(n) for n in r.get("notes", [])]
            theirs = [n for n, m in zip(theirs, t["notes"]) if "\u27e6" not in m[1]]
            if r.get("mismatch") or r.get("failed") or mine != theirs:
                errors.append("engine validation: path of `%s` with inputs %s ends differently on the unmodified code: %s vs %s %s %s" % (
                    t["case"], t["vars"][:40], mine, theirs, r.get("failed"), r.get("mismatch")))
            else:
                validated += 1

    # vacuity
    vio_cases = {v["case"] for v in viols}
    for r in done:
        if r["case"] in vio_cases:
            continue
        if r["paths"] == r["killed"]:
            errors.append("case `%s` has no feasible path" % r["case"])
        lost = [x for x in r["expect"] if x not in r["reached"]]
        if lost and not r["inconclusive"]:
            errors.append("case `%s` never reached %s" % (r["case"], lost))
    inconcl = []
    for r in done:
        for i in r["inconclusive"]:
            inconcl.append("%s: %s" % (r["case"], i))
            if i.startswith("harness panic"):
                errors.append("%s: %s" % (r["case"], i))
    inconcl += ["%s: not started within the time budget" % s for s in skipped]

    tot = lambda k: sum(r[k] for r in done)
    info = property_info(prop)
    fns = sorted({c.split("#")[0] for c in cover})
    nonriv = [r for r in done if r["queries"] > 0]
    samples = []
    for r in done[:: max(1, len(done) // 5)][:6]:
        samples.append({"case": r["case"], "paths": r["paths"], "queries": r["queries"], "example path": (r["samples"] or ["-"])[0]})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated,
            "samples": samples,
            "explanation": "states: symbolic paths through the real code, each for all inputs satisfying its path condition; "
                           "transitions: interpreter steps executed symbolically; traces: models of completed paths re-run on the unmodified code",
            "bounds": info.get("bounds", ""), "outside_bounds": info.get("outside", ""),
            "cases": len(done), "cases_with_solver_queries": len(nonriv), "infeasible_paths": tot("killed"),
            "symbolic_branches": tot("decisions"), "forks": tot("forks"),
            "assertions": tot("checks"), "assertions_closed_syntactically": tot("checks_trivial"),
            "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "solver_unknown": tot("unknowns"),
            "solver_cache_hits": tot("cache_hits"), "cross_checked_with_cvc5": tot("cross_checked"),
            "solver_seconds": round(tot("solver_time"), 2), "longest_query_seconds": round(max([r["max_query"] for r in done] or [0]), 2),
            "functions_encoded": fns, "functions_encoded_count": len(fns), "code_sites_reached": len(cover), "code_sites_total": sites,
            "inconclusive": inconcl[:50], "inconclusive_count": len(inconcl),
            "known_findings": [k["id"] for k, _ in old.values()],
        },
        "assumptions": [
            "the transpiler specr-transpile, rustc, z3 (cross-checked samples: cvc5) and the symbolic libspecr are trusted; completed paths and "
            "every counterexample are re-run on the stock library",
        ] + info.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    if not a.only:
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d paths, %d steps, %d queries (%.1f s solver), %d traces validated, build %.0f s, run %.0f s, total %.0f s" % (
        prop, tier, len(done), tot("paths"), tot("steps"), tot("queries"), tot("solver_time"), validated, t_build, t_sym, time.time() - t0))
    if inconcl:
        print("INCONCLUSIVE (not counted as explored): %d" % len(inconcl))
        for i in inconcl[:12]:
            print("  " + i[:300])
    for k, vs in old.values():
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
    for k in known:
        if k["property"] == prop and k["id"] not in old and not a.only:
            print("note: known finding %s did not show up" % k["id"])
    if new:
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for i, v in enumerate(new[:10]):
            p = os.path.join(rdir, "%s_%d.json" % (prop, i))
            with open(p, "w") as f:
                json.dump({"prop": prop, "tier": tier, "case": v["case"], "label": v["label"], "detail": v["detail"], "vars": v["vars"],
                           "notes": v["notes"], "native": v["native"], "how": "python3 /verif/check.py --replay " + p}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  case `%s`: %s: %s" % (v["case"], v["label"], v["detail"][:400]))
            print("  inputs: %s" % " ".join("%s=%s" % tuple(x) for x in v["vars"][:24]))
        for e in errors[:5]:
            print("note: " + e[:600])
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR: " + e[:1500])
        return 2
    print("OK: %s held on everything explored" % prop)
    return 0


def property_info(prop):
    p = os.path.join(VERIF, "vlib", "bounds.json")
    return json.load(open(p)).get(prop, {}) if os.path.exists(p) else {}


if __name__ == "__main__":
    sys.exit(main())
