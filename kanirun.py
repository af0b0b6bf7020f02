"""Kani harnesses (machine-integer code): harness/machine.rs over the current tree of /repo."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
WS = os.path.join(HERE, "kani")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
    ENV.pop(k, None)
TARGETS = os.path.join(HERE, "build", "kani")
REPLAY = os.path.join(HERE, "replay/target/release/replay")


def listing():
    out = subprocess.run([REPLAY, "machines", "-"], stdout=subprocess.PIPE, text=True, check=True).stdout
    return [json.loads(l) for l in out.splitlines() if l.strip()]


def cases(prop, tier):
    ms = [m for m in listing() if m["property"] == prop and (tier == "thorough" or not m["thorough"])]
    return [{"property": prop, "harnesses": ms}] if ms else []


STOP = [None]


def stop_soon():
    """a violation is confirmed: what else runs gets a little longer"""
    if STOP[0] is None:
        STOP[0] = time.time() + 20


def stopped():
    return STOP[0] is not None and time.time() > STOP[0]


def wait(p, limit):
    """communicate(), ended early by stop_soon()"""
    end = time.time() + limit
    while True:
        try:
            return p.communicate(timeout=1)
        except subprocess.TimeoutExpired:
            if time.time() > end or stopped():
                raise


def kani(args, limit):
    """(output, timed out)"""
    p = subprocess.Popen(["cargo", "kani"] + args, cwd=WS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = wait(p, max(limit, 5))
        return out, False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return out or "", True


def setup():
    kani(["--only-codegen", "--target-dir", os.path.join(TARGETS, "setup")], 900)


def values(out):
    """the inputs of the concrete playback tests in the output, one list of integers each"""
    res = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        v = []
        for b in re.finditer(r"vec!\[([0-9, ]*)\]", m.group(1)):
            bs = bytes(int(x) for x in b.group(1).split(",") if x.strip())
            v.append(int.from_bytes(bs, "little", signed=True))
        if v not in res:
            res.append(v)
    return res


def verdict(out):
    """(ok, failed checks, unwinding incomplete, covered)"""
    failed = re.findall(r"Check \d+: (.*)\n\t - Status: FAILURE\n\t - Description: \"(.*?)\"", out)
    unwind = [f for f in failed if "unwind" in f[0] or "unwinding" in f[1]]
    rest = [f for f in failed if f not in unwind]
    ok = "VERIFICATION:- SUCCESSFUL" in out
    cov = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", out)
    covered = bool(cov) and cov.group(1) == cov.group(2)
    return ok, rest, unwind, covered


def native(name, vals, path):
    with open(path, "w") as f:
        f.write("# machine harness %s\n" % name)
        for i, v in enumerate(vals):
            f.write("in%d=%d\n" % (i, v))
    try:
        r = subprocess.run([REPLAY, "machine:" + name, path], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=60)
    except subprocess.TimeoutExpired:
        return "hang", "no answer within 60 s"
    line = next((l for l in r.stderr.splitlines() if l.startswith("REPLAY")), r.stderr.strip()[-300:])
    if r.returncode < 0:
        return "signal", "killed by signal %d" % -r.returncode
    return {0: "pass", 3: "assume", 4: "skip", 10: "check", 11: "panic"}.get(r.returncode, "error"), line


def prepare(tree):
    """time stamps are not trusted: a new tree is a new build"""
    stamp = os.path.join(HERE, "build", "kani-tree")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != tree:
        shutil.rmtree(TARGETS, ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(tree)


def one(h, deadline, outdir, repdir, res):
    name = h["name"]
    start = time.time()
    base = ["--target-dir", os.path.join(TARGETS, name), "--harness", "machine::proofs::" + name, "--exact"]
    if name.endswith("_big"):
        base += ["--features", "wide"]
    unwind = None
    for attempt in range(4):
        args = base + (["--unwind", str(unwind)] if unwind else [])
        args += ["-Z", "concrete-playback", "--concrete-playback=print"]
        out, late = kani(args, deadline - time.time())
        with open(os.path.join(outdir, "kani-%s.log" % name), "w") as f:
            f.write(out)
        if late:
            res["late"].append("%s: kani did not end in time" % name)
            return
        ok, failed, incomplete, covered = verdict(out)
        if incomplete and not failed:
            unwind = (unwind or h["unwind"]) * 3
            continue
        break
    if name.startswith("refuse_"):
        # refused: a panic and no way past it (Kani counts the panic as a failed check)
        got = "Status: SATISFIED" in out
        refused = bool(failed) and "Complete - " in out and not incomplete
        ok, covered = refused and not got, True
        if ok:
            failed = []
        elif got:
            failed = [("", "a call that must be refused returns")]
    t = re.search(r"Verification Time: ([0-9.]+)s", out)
    secs = float(t.group(1)) if t else 0.0
    checks = len(re.findall(r"^Check \d+:", out, re.M))
    steps = sum(int(x) for x in re.findall(r"size of program expression: (\d+) steps", out))
    vccs = sum(int(x) for x in re.findall(r"Generated (\d+) VCC", out))
    res["checks"] += checks
    res["steps"] += steps
    res["queries"] += max(vccs, checks)
    res["solver_s"] += secs
    res["harnesses"][name] = {"bound": h["bound"], "checks": checks, "seconds": secs, "unwind": unwind or h["unwind"],
                              "verdict": "holds" if ok else "fails", "wall_s": round(time.time() - start, 1)}
    if ok:
        res["decided"] += 1
        if not covered:
            res["problems"].append("%s: the end of the harness is not reached (vacuous)" % name)
        for i, v in enumerate(values(out)[:2]):
            path = os.path.join(repdir, "%s-w%d.model" % (name, i))
            got, detail = native(name, v, path)
            res["replayed"] += 1
            if got == "pass":
                os.remove(path)
            elif got in ("check", "panic", "signal", "hang"):
                stop_soon()
                res["violations"].append({"model": {"in%d" % k: x for k, x in enumerate(v)}, "msg": "the real build fails on a covered input",
                                          "native": detail, "replay": path, "harness": name})
            elif got not in ("skip",):
                res["late"].append("%s: witness replay: %s %s %s" % (name, got, detail, v))
        return
    if not failed:
        res["late"].append("%s: kani gave no verdict: %s" % (name, out[-400:]))
        return
    shown = False
    for i, v in enumerate(values(out)):
        path = os.path.join(repdir, "%s-%d.model" % (name, i))
        got, detail = native(name, v, path)
        res["replayed"] += 1
        if got in ("check", "panic", "signal", "hang"):
            res["violations"].append({"model": {"in%d" % k: x for k, x in enumerate(v)}, "msg": failed[0][1],
                                      "native": detail, "replay": path, "harness": name})
            shown = True
            stop_soon()
            break
        os.remove(path)
    if not shown:
        res["late"].append("%s: counterexample does not reproduce natively: %s %s" % (name, failed[:3], values(out)[:2]))


def run(k, deadline, outdir):
    from check import tree_hash, EVID
    prop = k["property"]
    prepare(tree_hash())
    repdir = os.path.join(EVID, "replay", prop)
    os.makedirs(repdir, exist_ok=True)
    res = {"name": prop + ".kani", "bound": "; ".join("%s: %s" % (h["name"], h["bound"]) for h in k["harnesses"]),
           "functions": sorted({f.strip() for h in k["harnesses"] for f in h["functions"].split(",")}),
           "total": len(k["harnesses"]), "problems": [], "late": [], "decided": 0, "violations": [], "replayed": 0, "checks": 0, "steps": 0, "queries": 0, "solver_s": 0.0,
           "harnesses": {}, "sample": ""}
    with cf.ThreadPoolExecutor(5) as ex:
        for f in [ex.submit(one, h, deadline, outdir, repdir, res) for h in k["harnesses"]]:
            f.result()
    shutil.rmtree(TARGETS, ignore_errors=True)
    res["sample"] = "; ".join("%s %s in %.1f s" % (n, x["verdict"], x["seconds"]) for n, x in res["harnesses"].items())
    return res
