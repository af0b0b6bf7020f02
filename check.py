#!/usr/bin/env python3
"""check.py PROPERTY -- decides one property of /repo's current tree.

Runs every symbolic case registered for the property (and its Kani harnesses, if any), replays
counterexamples on a native build of the same tree, and writes evidence/PROPERTY.json.
Exit 0: held within the stated bounds; 1: violated (VIOLATION line); 2: no answer.
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kanirun

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
CARGO = ["cargo", "+stable"]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
    ENV.pop(k, None)
QUICK_BUDGET = 660      # seconds for the whole check
THOROUGH_BUDGET = 6 * 3600
T0 = time.time()


QUICK_CASE = 240        # seconds for one case of a quick run; on the original tree none needs a third of it
LATE = ("no time left", "the symbolic run did not end in time")


def log(*a):
    print(*a, flush=True)


def fail(msg):
    log("ERROR", msg)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    paths = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        paths += [os.path.join(root, f) for f in files]
    paths += [os.path.join(REPO, "Cargo.toml")]
    for p in sorted(paths):
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def cargo(ws, args, timeout=1500):
    d = os.path.join(HERE, ws)
    return subprocess.run(CARGO + args, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def build(quiet=True):
    """native and symbolic builds of /repo's current working tree"""
    os.makedirs(BUILD, exist_ok=True)
    h = tree_hash()
    stamp = os.path.join(BUILD, "tree")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    for ws in ("sym", "replay"):
        if old != h:
            # never trust time stamps for the crate under test
            cargo(ws, ["clean", "--offline", "--release", "-p", "ellipticcurve"])
    if os.path.exists(stamp):
        os.remove(stamp)

    def one(ws):
        return ws, cargo(ws, ["build", "--offline", "--release"])
    with cf.ThreadPoolExecutor(2) as ex:
        for ws, r in ex.map(one, ("sym", "replay")):
            if r.returncode != 0:
                log(r.stdout[-6000:])
                fail("the %s build of the current tree failed" % ws)
    if tree_hash() != h:
        fail("/repo changed during the build")
    with open(stamp, "w") as f:
        f.write(h)
    return h


SYM = os.path.join(HERE, "sym/target/release/sym")
REPLAY = os.path.join(HERE, "replay/target/release/replay")


def list_cases():
    out = subprocess.run([SYM, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout
    return [json.loads(l) for l in out.splitlines() if l.strip()]


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(case, model, path, timeout=60):
    """native run of a case on concrete inputs: (verdict, detail)"""
    with open(path, "w") as f:
        f.write("# case %s\n" % case)
        for k, v in sorted(model.items()):
            f.write("%s=%s\n" % (k, v))
    try:
        r = subprocess.run([REPLAY, case, path], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return "hang", "no answer within %d s" % timeout
    line = next((l for l in r.stderr.splitlines() if l.startswith("REPLAY")), r.stderr.strip()[-300:])
    if r.returncode == 0:
        return "pass", line
    if r.returncode == 3:
        return "assume", line
    if r.returncode == 4:
        return "skip", line
    if r.returncode == 10:
        return "check", line
    if r.returncode == 11:
        return "panic", line
    if r.returncode < 0:
        return "signal", "killed by signal %d %s" % (-r.returncode, line)
    return "error", "exit %d %s" % (r.returncode, line)


def run_case(c, deadline, outdir, cap):
    out = os.path.join(outdir, c["name"] + ".json")
    if os.path.exists(out):
        os.remove(out)
    left = min(deadline - time.time(), cap)
    if left < 5 or kanirun.stopped():
        return c, None, "no time left"
    try:
        p = subprocess.Popen([SYM, "run", c["name"], out, str(int(left * 1000))], stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        try:
            _, err = kanirun.wait(p, left + 30)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return c, None, "the symbolic run did not end in time"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        if not os.path.exists(out):
            return c, None, "the symbolic run ended with code %s: %s" % (p.returncode, err[-500:])
        with open(out) as f:
            return c, json.load(f), None
    except Exception as e:  # noqa
        return c, None, repr(e)


def known_findings(prop):
    """lines `finding: property=<id> case=<case> match=<regex> :: <what fails>`; `fixed:` lines suppress nothing"""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build()
        kanirun.setup()
        log("setup done in %.0f s" % (time.time() - T0))
        return 0
    prop = args[0]
    only = args[1:] or None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
    deadline = T0 + budget
    cap = QUICK_CASE if tier == "quick" else budget
    os.makedirs(EVID, exist_ok=True)
    evpath = os.path.join(EVID, prop + ".json")
    if os.path.exists(evpath):
        os.remove(evpath)
    build()
    outdir = os.path.join(BUILD, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    repdir = os.path.join(EVID, "replay", prop)
    shutil.rmtree(repdir, ignore_errors=True)
    os.makedirs(repdir)

    cases = [c for c in list_cases() if c["property"] == prop and (tier == "thorough" or c["tier"] == "quick")]
    if only:
        cases = [c for c in cases if c["name"] in only]
    kcases = kanirun.cases(prop, tier) if not only else []
    if not cases and not kcases:
        fail("no cases for %s" % prop)
    cases.sort(key=lambda c: -c["cost"])

    problems, late, violations, known = [], [], [], []
    contradicted = set()
    decided = 0
    results = []
    native = {"pass": 0}
    traces = 0
    findings = known_findings(prop)

    def report(case, model, kind, msg, detail, path):
        for (fc, rx, what) in findings:
            text = " ".join("%s=%s" % kv for kv in sorted(model.items())) + " " + msg
            if fc == case and rx.search(text):
                known.append(what)
                return
        violations.append({"case": case, "message": msg, "kind": kind, "native": detail, "replay": path, "inputs": model})
        kanirun.stop_soon()

    workers = os.cpu_count() or 4
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(run_case, c, deadline, outdir, cap) for c in cases]
        kfuts = [ex.submit(kanirun.run, k, deadline, outdir) for k in kcases]
        for f in cf.as_completed(futs):
            c, r, err = f.result()
            name = c["name"]
            if err:
                (late if err in LATE else problems).append("%s: %s" % (name, err))
                continue
            results.append((c, r))
            n = 0
            for i, v in enumerate(r.get("violations", [])):
                path = os.path.join(repdir, "%s-%d.model" % (name, i))
                verdict, detail = replay(name, v["model"], path)
                traces += 1
                if verdict in ("check", "panic", "hang", "signal"):
                    report(name, v["model"], v["kind"], v["msg"], detail, path)
                    n += 1
                else:
                    contradicted.add(name)
                    late.append("%s: counterexample does not reproduce natively (%s: %s; symbolic: %s; %s)"
                                    % (name, verdict, detail, v["msg"], v["model"]))
            # inputs of explored paths, through the real build: the stand-in must agree with it
            for i, w in enumerate(r.get("witnesses", [])):
                path = os.path.join(repdir, "%s-w%d.model" % (name, i))
                verdict, detail = replay(name, w, path)
                traces += 1
                if verdict == "pass":
                    native["pass"] += 1
                    os.remove(path)
                elif verdict == "skip":
                    os.remove(path)
                elif verdict in ("check", "panic", "signal", "hang"):
                    report(name, w, "native", "the real build fails on the inputs of an explored path", detail, path)
                    n += 1
                else:
                    contradicted.add(name)
                    late.append("%s: witness replay: %s %s %s" % (name, verdict, detail, w))
            if n == 0 and not r.get("violations"):
                short = name in contradicted
                for p in r.get("problems", []):
                    late.append("%s: %s" % (name, p))
                    short = True
                if not r.get("exhausted"):
                    late.append("%s: exploration not exhausted" % name)
                    short = True
                if r.get("unknown", 1) != 0:
                    late.append("%s: %d undecided" % (name, r.get("unknown", -1)))
                    short = True
                if short:
                    continue
                decided += 1
                if r.get("checks", 0) == 0:
                    problems.append("%s: no check was reached" % name)
                for k in c["covers"]:
                    if not r.get("covers", {}).get(k):
                        problems.append("%s: nothing reached '%s' (vacuous)" % (name, k))
        kres = []
        for f in cf.as_completed(kfuts):
            k = f.result()
            kres.append(k)
            problems += k["problems"]
            late += k["late"]
            decided += k["decided"]
            traces += k["replayed"]
            for v in k["violations"]:
                report(k["name"], v["model"], "kani", v["msg"], v["native"], v["replay"])

    tot = {}
    for _, r in results:
        for key, v in r.items():
            if isinstance(v, int) and not isinstance(v, bool):
                if key == "max_query_ms":
                    tot[key] = max(tot.get(key, 0), v)
                else:
                    tot[key] = tot.get(key, 0) + v
    functions = sorted({f for c, _ in results for f in c["functions"]} | {f for k in kres for f in k["functions"]})
    samples = []
    for c, r in results:
        for s in r.get("samples", [])[:2]:
            samples.append("%s: %s" % (c["name"], s[:300]))
    for k in kres:
        samples.append("%s: %s" % (k["name"], k["sample"]))
    cover = {
        "states": tot.get("paths", 0) + sum(k["checks"] for k in kres),
        "transitions": tot.get("decisions", 0) + sum(k["steps"] for k in kres),
        "traces_validated_against_impl": traces,
        "samples": samples[:40],
        "meaning": "states = explored symbolic paths (plus Kani/CBMC checks); transitions = comparisons on symbolic "
                   "values decided along them (plus CBMC program steps); traces = inputs taken from explored paths "
                   "or counterexamples and run through the native build of /repo",
        "functions_encoded": functions,
        "bounds": {c["name"]: c["bound"] for c, _ in results} | {k["name"]: k["bound"] for k in kres},
        "cases": {c["name"]: {k: r.get(k) for k in ("paths", "completed", "assumed_away", "checks", "decisions",
                                                      "branches", "implied", "folded", "norm_decided", "fd_queries", "bv_queries",
                                                      "int_queries", "sat", "unsat", "solver_unknown", "guessed",
                                                      "cached", "ops", "solver_ms", "wall_ms", "exhausted", "covers",
                                                      "vars", "excluded", "exclusions", "pinned")} for c, r in results},
        "kani": kres,
        "queries_discharged": tot.get("sat", 0) + tot.get("unsat", 0) + sum(k["queries"] for k in kres),
        "solver_seconds": round(tot.get("solver_ms", 0) / 1000.0 + sum(k["solver_s"] for k in kres), 2),
        "max_query_ms": tot.get("max_query_ms", 0),
        "checks_evaluated": tot.get("checks", 0),
        "native_replays_agreeing": native["pass"],
        "undecided": tot.get("unknown", 0),
        "exhaustive": False,
        "known_findings_seen": sorted(set(known)),
        "problems": problems[:30],
        "not_decided_in_time": late[:60],
        "decided_cases": decided,
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cover,
        "assumptions": [
            "within the bounds listed under coverage.bounds; anything outside them is not covered",
            "the BigInt stand-in (engine/symbig) means what num-bigint means; counterexamples and the inputs of "
            "explored paths are replayed on the real num-bigint",
            "z3 is sound",
        ],
        "wall_s": round(time.time() - T0, 1),
        "violations": len(violations),
    }
    tmp = evpath + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, evpath)

    for w in sorted(set(known)):
        log("KNOWN-FINDING: property=%s %s" % (prop, w))
    for v in violations[:5]:
        log("violated: %s: %s (%s) inputs %s" % (v["case"], v["message"], v["native"], v["inputs"]))
    log("%s %s: %d cases, %d paths, %d checks, %d queries, %.1f s solver, %.1f s" % (
        prop, tier, len(results) + len(kres), tot.get("paths", 0), tot.get("checks", 0),
        cover["queries_discharged"], cover["solver_seconds"], time.time() - T0))
    if violations:
        log("VIOLATION property=%s replay=%s" % (prop, violations[0]["replay"]))
        return 1
    for p in late[:20]:
        log("NOT EXPLORED", p[:300])
    for p in problems[:20]:
        log("UNDECIDED", p[:1000])
    # A case that ran out of time, met an operation the stand-in does not encode, or gave a counterexample
    # the real code does not confirm narrows what was explored and is listed as such; when most of the
    # exploration is missing there is no answer.
    return 2 if problems or decided * 3 < len(cases) + sum(k["total"] for k in kres) else 0


if __name__ == "__main__":
    sys.exit(main())
