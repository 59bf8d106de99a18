#!/usr/bin/env python3
"""Exploration by hand: which small changes of /repo that pass its tests does no check notice?

mutate.py filter N        build and test N random mutants, append survivors to /tmp/mut/alive.jsonl
mutate.py run             run the checks of the file on each of them, append to /tmp/mut/results.jsonl
"""
import json, os, random, shutil, subprocess, sys, concurrent.futures, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
M = "/tmp/mut"
CHECKS = {
    "http/auth_handler.go": "C18 C19", "http/client_factory.go": "C13 C25 C18", "http/client_util.go": "C25 C13 C26",
    "http/gateway_handler.go": "C13 C20 C25 C18", "http/h1_client.go": "C27 C13 C12 C25 C18", "http/h1_server.go": "C12 C13 C17",
    "http/h2_client.go": "C27 C13 C15 C14 C20 C18 C25", "http/h2_server.go": "C16 C17 C20 C13", "http/request.go": "C12 C08 C09 C10 C16 C17",
    "http/server_utils.go": "C20 C18", "http/streaming_client.go": "C14 C15 C13 C20 C27 C26", "http/typewrap.go": "C11",
    "http/ws_client.go": "C27 C13 C15 C14 C20 C18 C25", "http/ws_server.go": "C16 C17 C20 C13", "messageimpl.go": "C01 C04 C02 C09",
    "parse.go": "C02 C03 C01", "utils.go": "C22 C23 C24 C21 C01", "validators.go": "C24 C02", "errors.go": "C09 C01",
    "schema/builder.go": "C06 C05 C07", "schema/convert.go": "C06 C05 C07", "schema/schema.go": "C05 C07 C06 C10", "schema/validator.go": "C05 C10",
}
lock = threading.Lock()


def apply(root, m):
    p = os.path.join(root, m["file"])
    b = open(os.path.join("/repo", m["file"]), "rb").read()
    open(p, "wb").write(b[:m["start"]] + m["new"].encode() + b[m["end"]:])


def restore(root, m):
    shutil.copy(os.path.join("/repo", m["file"]), os.path.join(root, m["file"]))


def key(m):
    return json.dumps([m["file"], m["start"], m["end"], m["new"]])


def read(name):
    p = os.path.join(M, name)
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []


def append(name, x):
    with lock, open(os.path.join(M, name), "a") as f:
        f.write(json.dumps(x) + "\n")


ENV = "source /opt/vp/env.sh; export GOSUMDB=off; "


def test(m, root):
    apply(root, m)
    try:
        try:
            r = subprocess.run(["bash", "-c", ENV + "go build ./... && unshare -Urn bash -c 'ip link set lo up; timeout 60 go test -count=1 ./... '"],
                           cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=150)
        except subprocess.TimeoutExpired:
            return "timeout"
        return "ok" if r.returncode == 0 else "killed"
    finally:
        restore(root, m)


def main():
    os.makedirs(M, exist_ok=True)
    if sys.argv[1] == "filter":
        n = int(sys.argv[2])
        done = {key(x) for x in read("tested.jsonl")}
        ms = [json.loads(l) for l in open("/tmp/mutants.jsonl")]
        ms = [m for m in ms if key(m) not in done]
        if len(sys.argv) > 3:
            ms = [m for m in ms if m["file"].startswith(sys.argv[3])]
        random.Random(len(done)).shuffle(ms)
        ms = ms[:n]
        roots = []
        for i in range(6):
            r = os.path.join(M, "t%d" % i)
            shutil.rmtree(r, ignore_errors=True)
            shutil.copytree("/repo", r, symlinks=True)
            roots.append(r)

        def one(m):
            with lock:
                r = roots.pop()
            try:
                s = test(m, r)
                append("tested.jsonl", dict(m, state=s))
                if s == "ok":
                    append("alive.jsonl", m)
            finally:
                with lock:
                    roots.append(r)
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            list(ex.map(one, ms))
        for r in roots:
            shutil.rmtree(r)
        return
    root = os.path.join(M, "w")
    ver = "/tmp/mut/verif"
    shutil.rmtree(ver, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/verif", ver])
    while True:
        done = {key(x) for x in read("results.jsonl")}
        todo = [m for m in read("alive.jsonl") if key(m) not in done]
        if not todo:
            return
        todo.sort(key=lambda m: m["file"].startswith(("cli", "examples")))
        m = todo[0]
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree("/repo", root, symlinks=True)
        apply(root, m)
        res, why = "SURVIVED", ""
        for c in CHECKS.get(m["file"], "C26").split():
            r = subprocess.run(["python3", ver + "/run.py", "check", c], env=dict(os.environ, VERIF_REPO=root), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 1:
                res, why = c, [l for l in r.stdout.split("\n") if l.startswith("error")][:1]
                break
            if r.returncode != 0:
                res, why = c + " rc%d" % r.returncode, r.stdout[-300:]
                break
        append("results.jsonl", dict(m, result=res, why=why))


main()
