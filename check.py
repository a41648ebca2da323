#!/usr/bin/env python3
"""check.py ID            run the check of property ID (VERIF_SEED, VERIF_TIER)
   check.py ID --replay F run one recorded scenario again
   check.py --setup       compile every harness package once
"""
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VH_REPO", "/repo")
GO = "/opt/veriftools/go1.25.14/bin/go"
SCRATCH = []


def cleanup():
    for d in SCRATCH:
        if d.startswith("/tmp/vh-"):
            shutil.rmtree(d, ignore_errors=True)


def die(code, msg):
    print(msg, flush=True)
    cleanup()
    sys.exit(code)


def goenv():
    e = dict(os.environ)
    for k in ("GOROOT", "GOFLAGS", "GODEBUG", "GOEXPERIMENT", "GOWORK", "GOOS", "GOARCH"):
        e.pop(k, None)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1",
             GOFLAGS_EXTRA="", CGO_ENABLED="0", GOWORK="off")
    e.setdefault("HOME", "/root")
    e["PATH"] = os.path.dirname(GO) + ":" + e.get("PATH", "/usr/bin:/bin")
    return e


def build(pkg, out):
    """Compile harness package pkg against the current working tree of the repository."""
    e = goenv()
    mod = os.path.join(os.path.dirname(out), "go.mod")
    src = open(os.path.join(ROOT, "harness", "go.mod")).read()
    src = re.sub(r"replace github.com/pojol/braid => \S+", "replace github.com/pojol/braid => " + REPO, src)
    open(mod, "w").write(src)
    shutil.copy(os.path.join(ROOT, "harness", "go.sum"), mod[:-4] + ".sum")
    for attempt in range(2):
        r = subprocess.run([GO, "test", "-c", "-modfile=" + mod, "-o", out, "./" + pkg],
                           cwd=os.path.join(ROOT, "harness"), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0 and os.path.exists(out):
            return
    die(2, "BUILD FAILED\n" + r.stdout[-4000:])


def tmpdir():
    d = tempfile.mkdtemp(prefix="vh-", dir="/tmp")
    SCRATCH.append(d)
    return d


def run_procs(jobs, limit):
    """jobs: list of (argv, cwd, env). Returns exit codes (None: killed)."""
    ps = []
    for argv, cwd, env in jobs:
        so = open(os.path.join(cwd, "stdout.txt"), "wb")
        se = open(os.path.join(cwd, "stderr.txt"), "wb")
        ps.append(subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=se,
                                   start_new_session=True))
    t0 = time.time()
    codes = [None] * len(ps)
    while any(c is None for c in codes) and time.time() - t0 < limit:
        for i, p in enumerate(ps):
            if codes[i] is None:
                codes[i] = p.poll()
        time.sleep(0.05)
    for i, p in enumerate(ps):
        if codes[i] is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    return codes


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            return f.read().decode("utf-8", "replace")[-n:]
    except OSError:
        return ""


def head(path, n=6000):
    try:
        with open(path, "rb") as f:
            return f.read(n).decode("utf-8", "replace")
    except OSError:
        return ""


ENV_ERR = re.compile(r"out of memory|cannot allocate memory|too many open files|no space left|"
                     r"resource temporarily unavailable|cannot assign requested address", re.I)


PROGRAM = re.compile(r"fatal error: (all goroutines|concurrent map|sync:|stack overflow|no goroutines|deadlock|unexpected signal)")


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def findings_file():
    listed, path = {}, os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                listed[(m.group(1), m.group(2))] = m.group(3).strip()
    return listed


def classify(d, code):
    """Judge one finished process: ok | violation | infra, with the failure record and a message."""
    res = load(os.path.join(d, "result.json"))
    cur = load(os.path.join(d, "current.json"))
    if code is None:
        return "infra", None, "time budget used up"
    if code == 78:
        cur["error"] = "the case is stuck: nothing goes on any more, and it has not ended"
        return "violation", cur, cur["error"] + ": " + head(os.path.join(d, "hang.txt"), 2500)
    if code == 77:
        return "hang", cur, "one case did not end: " + head(os.path.join(d, "hang.txt"), 2500)
    if res and res.get("failure"):
        return "violation", res["failure"], res["failure"]["error"]
    if res and res.get("done") and code == 0:
        if res.get("infra"):
            return "infra", None, res["infra"]
        return "ok", None, ""
    err = head(os.path.join(d, "stderr.txt"), 1 << 24) + "\n" + head(os.path.join(d, "stdout.txt"), 1 << 24)
    m = re.search(r"^(panic:|fatal error:|unexpected fault|SIGSEGV)", err, re.M)
    # a fatal error inside the Go runtime says nothing about the code under test,
    # unless it is one that a program brings about
    mine = m and (not err[m.start():].startswith("fatal error:") or PROGRAM.match(err[m.start():]))
    if code != 0 and cur and mine and not ENV_ERR.search(err[m.start():][:6000]):
        cur["error"] = "process crashed: " + err[m.start():][:3000]
        return "violation", cur, cur["error"]
    keep = os.environ.get("VH_KEEP")
    if keep:
        shutil.copytree(d, os.path.join(keep, os.path.basename(os.path.dirname(d)) + os.path.basename(d)), dirs_exist_ok=True)
    return "infra", None, "exit %s\n%s\n...\n%s\n%s" % (code, err[m.start() if m else 0:][:1500], tail(os.path.join(d, "stdout.txt")),
                                                      tail(os.path.join(d, "stderr.txt")))


def one_env(d, extra):
    e = goenv()
    e.pop("VH_REPLAY", None)
    e["VH_DIR"] = d
    e["GOTRACEBACK"] = "all"
    e["TMPDIR"] = d
    e.update(extra)
    return e


def replay(pid, path, repeat=1, binpath=None, limit=300):
    c = CHECKS[pid]
    top = tmpdir()
    if binpath is None:
        binpath = os.path.join(top, "t.bin")
        build(c["pkg"], binpath)
    d = os.path.join(top, "r")
    os.makedirs(d)
    codes = run_procs([([binpath, "-test.run", "^Test%s$" % pid, "-test.timeout", "0"], d,
                        one_env(d, {"VH_REPLAY": os.path.abspath(path), "VH_REPEAT": str(repeat)}))], limit)
    return classify(d, codes[0])


def run(pid):
    t0 = time.time()
    c = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    top = tmpdir()
    binpath = os.path.join(top, "t.bin")
    build(c["pkg"], binpath)
    built = time.time() - t0
    shards = c.get("shards", 4)
    total = c[tier]
    limit = 600 if tier == "quick" else 5400
    budget = c.get("budget_" + tier, 150 if tier == "quick" else 3000)
    if os.environ.get("VH_CHECKS"):
        total = int(os.environ["VH_CHECKS"])
    jobs = []
    for i in range(shards):
        d = os.path.join(top, "s%d" % i)
        os.makedirs(d)
        s = ((seed * 1000003 + i * 7919 + 1) % (2**62)) or 1
        extra = {"VH_TIME": "%ds" % budget, "VH_SHARD": str(i)}
        if i == 0:
            extra["VH_CORPUS"] = os.path.join(ROOT, "corpus", pid)
        jobs.append(([binpath, "-test.run", "^Test%s$" % pid, "-test.timeout", "0",
                      "-rapid.seed=%d" % s, "-rapid.checks=%d" % max(1, total // shards),
                      "-rapid.nofailfile", "-rapid.shrinktime=10s"], d, one_env(d, extra)))
    codes = run_procs(jobs, limit)
    # a shard that could not be judged is run once more
    again = [i for i, code in enumerate(codes) if code is not None and classify(jobs[i][1], code)[0] == "infra"]
    if again and time.time() - t0 < limit / 2:
        for i in again:
            shutil.rmtree(jobs[i][1])
            os.makedirs(jobs[i][1])
        for i, code in zip(again, run_procs([jobs[i] for i in again], limit)):
            codes[i] = code

    viol, infra, hangs = [], [], []
    ev = nontriv = 0
    labels, samples, hashes, finds, rule = {}, [], set(), [], ""
    for i, code in enumerate(codes):
        d = jobs[i][1]
        kind, fl, msg = classify(d, code)
        if kind == "violation":
            viol.append((fl, msg))
        elif kind == "hang":
            hangs.append((fl, msg))
        elif kind == "infra":
            infra.append(msg)
        res = load(os.path.join(d, "result.json"))
        if res:
            ev += res["evaluations"]
            nontriv += res["nontrivial"]
            rule = res["rule"] or rule
            for k, v in (res.get("labels") or {}).items():
                labels[k] = labels.get(k, 0) + v
            samples += (res.get("samples") or [])[:2]
            finds += res.get("findings") or []
        try:
            hb = open(os.path.join(d, "hashes.bin"), "rb").read()
            hashes |= set(struct.unpack("<%dQ" % (len(hb) // 8), hb))
        except OSError:
            pass
    # a case that did not end counts only if it does not end again in a fresh process
    if hangs and not viol:
        fl, msg = hangs[0]
        f = os.path.join(top, "hang.json")
        json.dump(fl, open(f, "w"))
        kind, fl2, msg2 = replay(pid, f, 1, binpath)
        if kind in ("hang", "violation"):
            fl["error"] = "the case never ends: " + msg2[:3000]
            viol.append((fl, fl["error"]))
        else:
            infra.append("a case did not end, but did when repeated: " + msg[:1500])

    listed = findings_file()
    out_lines = []
    for f in finds:
        key = (pid, f["key"])
        if f["reproduced"]:
            if key in listed:
                out_lines.append("KNOWN-FINDING: property=%s %s" % (pid, listed[key]))
            else:
                viol.append(({"property": pid, "test": "finding:" + f["key"], "error": f["what"],
                              "scenario": {"finding": f["key"]}}, f["what"]))

    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": rule or c.get("rule", "see DESIGN.md"),
                     "samples": samples[:6] or [{"note": "no non-trivial case was executed"}],
                     "nontrivial_executions": nontriv, "labels": labels, "shards": shards,
                     "build_s": round(built, 1)},
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for line in out_lines:
        print(line)
    if viol:
        viol.sort(key=lambda v: len(json.dumps(v[0])))
        fl, msg = viol[0]
        rd = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.json" % (pid, seed))
        with open(path, "w") as f:
            json.dump(fl, f, indent=1)
        print("%s: %s" % (pid, msg[:4000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        cleanup()
        sys.exit(1)
    if infra:
        die(2, "%s INCONCLUSIVE: %s" % (pid, "\n".join(infra)[:4000]))
    if ev == 0 or len(hashes) < 2:
        die(2, "%s INCONCLUSIVE: nothing non-trivial was executed" % pid)
    print("%s ok: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" %
          (pid, ev, len(hashes), built, time.time() - t0))
    cleanup()


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            top = tmpdir()
            for pkg in sorted({c["pkg"] for c in CHECKS.values()}):
                build(pkg, os.path.join(top, "t.bin"))
                os.unlink(os.path.join(top, "t.bin"))
            cleanup()
            print("setup ok")
        elif len(a) == 3 and a[1] == "--replay":
            kind, fl, msg = replay(a[0], a[2], int(os.environ.get("VH_REPEAT", "1")))
            print(kind, msg)
            if kind in ("violation", "hang"):
                die(1, "VIOLATION property=%s replay=%s" % (a[0], os.path.abspath(a[2])))
            cleanup()
            sys.exit(0 if kind == "ok" else 2)
        else:
            run(a[0])
    except KeyboardInterrupt:
        cleanup()
        raise


if __name__ == "__main__":
    main()
