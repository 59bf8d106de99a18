#!/usr/bin/env python3
"""seeds.py [-n] [ID...]: verifies planted bugs (patch, build, tests, demo) in a
scratch copy of /repo and runs the property's quick check against it."""
import json, os, shutil, subprocess, sys, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..", "seeded")
WORK = "/tmp/seedwork"


def run(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout


def one(id, check=True):
    d = os.path.realpath(os.path.join(ROOT, id))
    prop = json.load(open(d + "/meta.json"))["property"]
    w = "%s/%s" % (WORK, id)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    shutil.copytree("/repo", w, symlinks=True)
    genv = {"PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off"}
    demo = d + "-demo"
    dd = "%s/%s-demo" % (WORK, id)
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd)
    try:
        rc, out = run(["bash", dd + "/demo.sh"], w)
        if rc != 0:
            return id, prop, "DEMO FAILS ON UNCHANGED TREE\n" + out[-1500:]
        rc, out = run(["git", "apply", d + "/patch.diff"], w)
        if rc != 0:
            return id, prop, "PATCH DOES NOT APPLY\n" + out
        rc, out = run(["go", "build", "./..."], w, genv)
        if rc != 0:
            return id, prop, "NO BUILD\n" + out
        bad = 0
        rc, out = run(["go", "test", "-count=1", "./..."], w, genv)
        if rc != 0:
            rc, out = run(["go", "test", "-count=1", "./..."], w, genv)
        if rc != 0:
            return id, prop, "EXISTING TESTS FAIL\n" + out[-1500:]
        rc, out = run(["bash", dd + "/demo.sh"], w)
        if rc == 0:
            return id, prop, "DEMO PASSES WITH THE PATCH"
        if "DATA RACE" not in out and "FAIL" not in out and "panic" not in out:
            return id, prop, "DEMO FAILS ODDLY\n" + out[-1500:]
        if not check:
            return id, prop, "valid"
        rc, out = run([sys.executable, os.path.join(HERE, "..", "run.py"), "check", prop], w, {"VERIF_REPO": w, "VERIF_SEED": "1", "VERIF_EVIDENCE": "/dev/null"})
        if rc == 1 and "VIOLATION property=" + prop in out:
            line = [l for l in out.splitlines() if l.startswith("error:")]
            return id, prop, "CAUGHT " + (line[0][:160] if line else "")
        return id, prop, "MISSED rc=%d %s" % (rc, out[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(dd, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    check = "-n" not in args
    ids = [a for a in args if a != "-n"] or sorted(os.listdir(ROOT))
    for id in ids:
        r = one(id, check)
        print("%-28s %s %s" % r, flush=True)
