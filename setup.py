#!/usr/bin/env python3
"""Builds every harness and the relay once, which checks the installation and warms the build cache."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
conf = json.load(open(os.path.join(HERE, "checks.json")))
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), GOWORK="off")
work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HERE, "harness", f), work)
    todo = {(("./cmd/" + c["cmd"]), bool(c.get("race"))) for c in conf.values() if c.get("cmd")}
    todo |= {("github.com/icon-project/btp/cmd/relay", c["relay"] == "race") for c in conf.values() if c.get("relay")}
    for pkg, race in sorted(todo):
        cmd = ["go", "build", "-modfile=" + os.path.join(work, "go.mod"), "-o", os.path.join(work, "out")]
        if race:
            cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
        r = subprocess.run(cmd + [pkg], cwd=os.path.join(HERE, "harness"), env=dict(env, CGO_ENABLED="1" if race else "0"))
        if r.returncode:
            sys.exit(r.returncode)
        print("built", pkg, "race" if race else "")
    java = sorted({m for c in conf.values() for m in c.get("java", [])})
    if java:
        r = subprocess.run(["bash", os.path.join(HERE, "java", "build.sh"), "/repo", os.path.join(work, "j")] + java)
        if r.returncode:
            sys.exit(r.returncode)
        print("built contracts")
finally:
    shutil.rmtree(work, ignore_errors=True)
