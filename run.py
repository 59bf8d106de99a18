#!/usr/bin/env python3
"""Driver of the checks: builds the harness from /repo's working tree, runs the
shards of one property's test, merges what they covered into evidence/<id>.json
and reports the verdict.

  run.py check ID              quick or thorough by VERIF_TIER
  run.py replay ID FILE        re-executes one saved case
  run.py setup                 build everything once
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
CONF = json.load(open(os.path.join(HERE, "checks.json")))
GODIR = "/opt/veriftools/go1.27.3/bin"


def goenv():
    e = dict(os.environ)
    if os.path.isdir(GODIR):
        e["PATH"] = GODIR + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off",
             CGO_ENABLED="0", VERIF_REPO=REPO)
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("HOME", "/root")
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(work, prop):
    """compile the test binary (and, where needed, the command line tools)"""
    env = goenv()
    mod = os.path.join(work, "mod")
    os.makedirs(mod, exist_ok=True)
    txt = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(os.path.join(mod, "go.mod"), "w").write(txt)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(mod, "go.sum"))
    out = os.path.join(work, "props.test")
    cmd = ["go", "test", "-vet=off", "-c", "-modfile", os.path.join(mod, "go.mod")]
    racer = None
    if CONF["checks"].get(prop, {}).get("race"):
        # the same program with the race detector, for some of the shards
        racer = subprocess.Popen(cmd + ["-race", "-o", out + ".race", "./props"], cwd=HARNESS, env=dict(env, CGO_ENABLED="1"),
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = sh(cmd + ["-o", out, "./props"], cwd=HARNESS, env=env)
    if racer:
        racer.wait()
    if racer and os.path.exists(out + ".race"):
        try:
            ok = subprocess.run([out + ".race", "-test.run", "^$"], cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:  # the race detector does not work here
            os.remove(out + ".race")
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout[-4000:])
        fatal("the harness does not build against " + REPO)
    for name, pkg in CONF["checks"].get(prop, {}).get("tools", {}).items():
        r = sh(["go", "build", "-mod=readonly", "-buildvcs=false", "-o", os.path.join(work, name), pkg], cwd=REPO, env=dict(env, GOFLAGS=""))
        if r.returncode != 0:
            print(r.stdout[-4000:])
            fatal("cannot build " + pkg)
    return out


def fatal(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(3)


RACE = re.compile(r"WARNING: DATA RACE.*?(?=Goroutine \d+ \(|={18})", re.S)
CRASH = re.compile(r"^(panic: |fatal error: |SIGSEGV|unexpected fault)", re.M)


def run_replay(binary, prop, path, work, known, limit=400):
    out = tempfile.mkdtemp(prefix="replay-", dir=work)
    env = goenv()
    env.update(VERIF_REPLAY=path, VERIF_OUT=out, VERIF_WORK=work, VERIF_KNOWN="\x1f".join(known))
    raced = json.load(open(path)).get("race") and os.path.exists(binary + ".race")
    if raced:
        env["GORACE"] = "halt_on_error=1 exitcode=66"
    try:
        for again in range(20 if raced else 1):
            r = subprocess.run([binary + (".race" if raced else ""), "-test.run", "^Test%s$" % prop, "-test.timeout", "0"], cwd=out, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit)
            if r.returncode != 0:
                break
    except subprocess.TimeoutExpired:
        return True, "replay hangs"
    if r.returncode == 0:
        return False, ""
    if r.returncode == 66 and RACE.search(r.stdout) and "superisaac/jlib" in RACE.search(r.stdout).group(0):
        return True, r.stdout
    if "REPLAY-FAILS" in r.stdout or CRASH.search(r.stdout) or r.returncode == 7:
        return True, r.stdout
    return False, r.stdout


def check(prop, tier):
    t0 = time.time()
    conf = CONF["checks"][prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    procs = []
    code = 3
    try:
        code = check_in(prop, tier, t0, conf, seed, work, procs)
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(work, ignore_errors=True)
    return code


def load_known(prop):
    known = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"^known: property=(\S+) sig=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def check_in(prop, tier, t0, conf, seed, work, procs):
    binary = build(work, prop)
    tb = time.time() - t0
    known = load_known(prop)
    shards = conf.get("shards", 8)
    stop = conf.get("stop_quick", 60) if tier == "quick" else conf.get("stop_thorough", 900)
    hard = stop + conf.get("grace", 240)
    out = os.path.join(work, "out")
    os.makedirs(out)
    logs = []
    raced = []
    for i in range(shards):
        env = goenv()
        env.update(VERIF_SHARD=str(i), VERIF_SHARDS=str(shards), VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_OUT=out,
                   VERIF_STOP_AFTER=str(stop), VERIF_WORK=work, VERIF_KNOWN="\x1f".join(known))
        env["GOMAXPROCS"] = str(conf.get("procs", 2))
        env["GOMEMLIMIT"] = "2500MiB"
        lf = open(os.path.join(work, "log-%d" % i), "w+")
        logs.append(lf)
        cwd = os.path.join(work, "cwd-%d" % i)
        os.makedirs(cwd)
        prog = binary
        if i >= shards - conf.get("race", 0) and os.path.exists(binary + ".race"):
            prog = binary + ".race"
            env["GORACE"] = "halt_on_error=1 exitcode=66"
            env["VERIF_RACED"] = "1"
            raced.append(i)
        procs.append(subprocess.Popen([prog, "-test.run", "^Test%s$" % prop, "-test.timeout", "0"], cwd=cwd, env=env,
                                      stdout=lf, stderr=subprocess.STDOUT, start_new_session=True))
    deadline = time.time() + hard
    failed = None
    while any(p.poll() is None for p in procs):
        if time.time() > deadline:
            break
        # a shard that failed decides; give the others no more time
        done = [i for i, p in enumerate(procs) if p.poll() is not None and p.returncode != 0]
        if done:
            break
        time.sleep(0.05)
    states = []
    for i, p in enumerate(procs):
        rc = p.poll()
        states.append(rc)
    errors = []
    confirmed = None
    for i, rc in enumerate(states):
        if rc in (None, 0):
            continue
        logs[i].flush()
        text = open(os.path.join(work, "log-%d" % i), errors="replace").read()
        fpath = os.path.join(out, "fail-%d.json" % i)
        cpath = os.path.join(out, "current-%d.json" % i)
        if os.path.exists(fpath) and rc != 7 and not CRASH.search(text.split("--- FAIL")[0]):
            confirmed = (json.load(open(fpath)), text)
            break
        if rc == 7 and os.path.exists(fpath):
            again, txt = run_replay(binary, prop, fpath, work, known)
            if again:
                confirmed = (json.load(open(fpath)), text)
                break
            errors.append("shard %d: a case hung once and not again" % i)
            continue
        m = RACE.search(text)
        if rc == 66 and m and os.path.exists(cpath):
            if "superisaac/jlib" in m.group(0):
                d = json.load(open(cpath))
                d["race"] = True
                d["error"] = "data race: " + text[m.start():m.start() + 3500]
                confirmed = (d, text)
                break
        m = CRASH.search(text)
        if m and os.path.exists(cpath):
            trace = text[m.start():]
            if "superisaac/jlib" in trace and "out of memory" not in trace[:200]:
                d = json.load(open(cpath))
                d["error"] = "the process died: " + trace[:3000]
                confirmed = (d, trace)
                break
            if os.path.exists(fpath):
                confirmed = (json.load(open(fpath)), text)
                break
        errors.append("shard %d ended with %s: %s" % (i, rc, text[-1500:]))
    timed_out = any(s is None for s in states) and not confirmed and not errors
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    if timed_out:
        errors.append("shards %s did not finish within %ds" % ([i for i, s in enumerate(states) if s is None], hard))

    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "exploration")}
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": conf["rule"], "samples": [], "classes": {},
           "inconclusive": 0, "unconfirmed_soft_failures": 0, "shards": shards, "shards_with_race_detector": len(raced), "time_limit_reached": False}
    seen = set()
    hits = {}
    for i in range(shards):
        p = os.path.join(out, "stats-%d.json" % i)
        if not os.path.exists(p):
            continue
        s = json.load(open(p))
        cov["evaluations"] += s["evaluations"]
        seen.update(s["nontrivial"] or [])
        cov["inconclusive"] += s["inconclusive"]
        cov["unconfirmed_soft_failures"] += s["soft_unconfirmed"]
        cov["time_limit_reached"] |= s["time_up"]
        for k, v in s["labels"].items():
            if not k.endswith("#nt"):
                cov["classes"][k] = cov["classes"].get(k, 0) + v
        for k, v in (s["known"] or {}).items():
            hits[k] = hits.get(k, 0) + v
        for x in s["samples"] or []:
            if len(cov["samples"]) < 8 and len([1 for y in cov["samples"] if y["part"] == x["part"]]) < 2:
                cov["samples"].append(x)
    cov["distinct_nontrivial"] = len(seen)
    cov["classes"] = dict(sorted(cov["classes"].items()))
    ev["coverage"] = cov
    ev["assumptions"] = conf.get("assumptions", [])
    ev["violations"] = 1 if confirmed else 0
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["build_s"] = round(tb, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    for sig, text in known.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, text, sig))
    if confirmed:
        d, text = confirmed
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-seed%d.json" % (prop, re.sub(r"\W+", "_", d["part"]), seed))
        json.dump(d, open(path, "w"), indent=1, ensure_ascii=False)
        print("part: %s" % d["part"])
        print("error: %s" % d["error"][:3000])
        print("case: %s" % json.dumps(d["case"], ensure_ascii=False)[:3000])
        print("replay with: python3 run.py replay %s %s" % (prop, path))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        for e in errors:
            print("CHECK-ERROR: " + e)
        return 3
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
        print("CHECK-ERROR: nothing was explored")
        return 3
    print("property %s held on %d cases (%d distinct non-trivial) in %.1fs (build %.1fs)%s" % (
        prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], tb,
        "; %d inconclusive" % cov["inconclusive"] if cov["inconclusive"] else ""))
    return 0


def main():
    cmd = sys.argv[1]
    if cmd == "check":
        sys.exit(check(sys.argv[2], os.environ.get("VERIF_TIER", "quick")))
    if cmd == "replay":
        prop, path = sys.argv[2], os.path.abspath(sys.argv[3])
        work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        try:
            binary = build(work, prop)
            bad, text = run_replay(binary, prop, path, work, load_known(prop))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print(text[-6000:])
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1 if bad else 0)
    if cmd == "setup":
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            for prop in ["C26"] if "C26" in CONF["checks"] else [""]:
                build(work, prop)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("setup ok")
        sys.exit(0)
    sys.exit(2)


main()
