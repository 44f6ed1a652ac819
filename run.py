#!/usr/bin/env python3
"""Runs one property's monitors against /repo's working tree.

usage: run.py <property> [quick|thorough] [--replay FILE]

exit 0: held on everything observed; exit 1 with a VIOLATION line: broken;
anything else: the check itself could not decide (build or harness error).
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BTP = "github.com/icon-project/btp"
CONF = json.load(open(os.path.join(HERE, "checks.json")))


def die(msg, code=2):
    print("CHECK-ERROR " + msg, flush=True)
    sys.exit(code)


def env_for(race):
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
             CGO_ENABLED="1" if race else "0", GONOSUMDB="*", GOWORK="off")
    return e


def build(work, pkg, out, race):
    cmd = ["go", "build", "-trimpath=false", "-modfile=" + os.path.join(work, "go.mod"), "-o", out]
    cmd = [c for c in cmd if c != "-trimpath=false"]
    if race:
        # checkptr is off: it flags the memory mapped pages of a third party store
        cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
    cmd.append(pkg)
    p = subprocess.run(cmd, cwd=HARNESS, env=env_for(race), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("build of %s failed\n%s" % (pkg, p.stdout[-6000:]))


def build_java(work, modules):
    out = os.path.join(work, "j")
    p = subprocess.run(["bash", os.path.join(HERE, "java", "build.sh"), REPO, out] + modules,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("build of the contracts failed\n%s" % p.stdout[-6000:])
    return ["java", "-Xss8m", "-Xmx3g", "-cp", os.path.join(out, "cls"), "h.Mon"]


def known(prop):
    res = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def crash_of(text):
    """The violation behind an abnormal end of the harness, or None."""
    for mark in ("panic: ", "fatal error: "):
        i = text.find(mark)
        if i < 0:
            continue
        blk = text[i:]
        # the panicking goroutine is printed first
        parts = re.split(r"\n\n(?=goroutine )", blk)
        first = "\n".join(parts[:2])
        for line in first.split("\n"):
            if line.startswith(BTP + "/"):
                site = line[:line.rfind("(")] if "(" in line else line
                return "crash:" + site[len(BTP) + 1:], first[:4000]
        return None
    return None


def races_of(text):
    """Distinct data race reports that involve the repository."""
    out = {}
    for blk in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", text, re.S):
        sites = []
        for part in re.split(r"\n\n", blk):
            for line in part.split("\n"):
                s = line.strip()
                if s.startswith(BTP + "/"):
                    sites.append(s[len(BTP) + 1:s.rfind("(")] if "(" in s else s[len(BTP) + 1:])
                    break
            if len(sites) == 2:
                break
        if not sites:
            continue
        out.setdefault("race:" + "+".join(sorted(sites)), blk[:4000])
    return out


def main():
    args = [a for a in sys.argv[1:]]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = json.load(open(args[i + 1]))
        del args[i:i + 2]
    if replay and not args:
        args = [replay["property"]]
    if not args or args[0] not in CONF:
        die("usage: run.py <property> [quick|thorough]")
    prop = args[0]
    conf = CONF[prop]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if replay:
        tier, seed = replay["tier"], replay["seed"]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    proc = None
    try:
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(HARNESS, f), os.path.join(work, f))
        if REPO != "/repo":
            p = os.path.join(work, "go.mod")
            s = open(p).read().replace("=> /repo", "=> " + REPO)
            open(p, "w").write(s)
        env = env_for(False)
        env["VERIF_WORK"] = work
        env["VERIF_REPO"] = REPO
        if conf.get("relay"):
            out = os.path.join(work, "relay")
            build(work, BTP + "/cmd/relay", out, conf["relay"] == "race")
            env["VERIF_RELAY"] = out
        if conf.get("java"):
            h = build_java(work, conf["java"])
        elif conf.get("py"):
            env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
            h = ["python3", os.path.join(HERE, "py", "mon.py")]
        else:
            h = [os.path.join(work, "harness")]
            build(work, "./cmd/" + conf["cmd"], h[0], bool(conf.get("race")))
        tb = time.time()
        summary = os.path.join(work, "summary.json")
        cmd = h + ["-prop", prop, "-tier", tier, "-seed", str(seed), "-out", summary]
        if replay and replay.get("only"):
            cmd += ["-only", replay["only"]]
        env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=5"
        env["GOTRACEBACK"] = "all"
        limit = 760 if tier == "quick" else 6 * 3600
        log = os.path.join(work, "log")
        with open(log, "wb") as lf:
            proc = subprocess.Popen(cmd, cwd=work, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = proc.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                os.killpg(proc.pid, signal.SIGKILL)
                proc.wait()
                rc = "timeout"
        text = open(log, "rb").read().decode("utf8", "replace")
        viol = []
        if os.path.exists(summary):
            s = json.load(open(summary))
            viol += s["violations"]
        else:
            c = crash_of(text)
            if c is None:
                die("harness ended with %s\n%s" % (rc, text[-6000:]))
            s = {"evaluations": 0, "distinct": 0, "counters": {}, "samples": [], "rule": "", "assumptions": None,
                 "inconclusive": [], "violation_counts": {}}
            viol.append({"sig": c[0], "detail": c[1], "group": "", "case": -1, "input": ""})
        for sig, blk in races_of(text).items():
            viol.append({"sig": sig, "detail": blk, "group": "", "case": -1, "input": ""})
        kf = known(prop)
        fresh, seen = [], set()
        for v in viol:
            if v["sig"] in kf:
                seen.add(v["sig"])
            else:
                fresh.append(v)
        for sig in sorted(seen):
            print("KNOWN-FINDING: property=%s sig=%s %s" % (prop, sig, kf[sig]))
        wall = time.time() - t0
        cov = {"evaluations": s["evaluations"], "distinct_nontrivial": s["distinct"], "rule": s["rule"] or conf.get("rule", ""),
               "samples": s["samples"], "observed": s["counters"], "inconclusive": s["inconclusive"],
               "build_s": round(tb - t0, 1), "race_detector": bool(conf.get("race") or conf.get("relay") == "race"),
               "known_findings_seen": sorted(seen)}
        ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
              "level": conf.get("level", "exploration"), "coverage": cov,
              "assumptions": s.get("assumptions") or conf.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh)}
        if not replay:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
                f.write("\n")
        print("%s %s: %d executions, %d distinct, %s, %.1fs" % (prop, tier, s["evaluations"], s["distinct"],
                                                              json.dumps(s["counters"], sort_keys=True), wall))
        if fresh:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            for n, v in enumerate(fresh[:10]):
                path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, n))
                only = "%s:%d" % (v["group"], v["case"]) if v["case"] >= 0 else ""
                with open(path, "w") as f:
                    json.dump({"property": prop, "tier": tier, "seed": seed, "only": only, "sig": v["sig"],
                               "detail": v["detail"], "input": v.get("input", ""),
                               "run": "python3 run.py --replay " + os.path.relpath(path, HERE)}, f, indent=1)
                print("-- %s %s %s\n   %s" % (v["sig"], only, v.get("input", "")[:300], v["detail"][:1200].replace("\n", "\n   ")))
                print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)), flush=True)
            return 1
        if not replay:
            need = conf.get("min_distinct", 5)
            if s["distinct"] < need or s["inconclusive"]:
                die("inconclusive: %d distinct observations, %s" % (s["distinct"], s["inconclusive"][:5]))
        return 0
    finally:
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
