#!/usr/bin/env python3
"""Decides one property of osv-detector by generated-input search.

usage: check.py <property> quick|thorough
       check.py --replay <replay directory>
       check.py --setup

Builds the binary and the harness from /repo's working tree in a scratch
directory, runs the harness of the property in parallel shards whose random
choices are a function of VERIF_SEED, and writes evidence/<property>.json.
Exit 0: held on everything explored; 1: violated (with a VIOLATION line);
anything else: the check itself could not give an answer.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SHARDS = 8

with open(os.path.join(HERE, "checks.json")) as f:
    CHECKS = json.load(f)


class Infra(Exception):
    pass


def go_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "VERIF_", "RAPID"))}
    env.update(
        HOME="/root",
        PATH="/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local",
        GOPROXY="off",
        GOSUMDB="off",
        GOWORK="off",
        CGO_ENABLED="0",
        GOMODCACHE="/root/go/pkg/mod",
        GOCACHE="/root/.cache/go-build",
    )
    return env


def sh(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise Infra("%s failed in %s:\n%s" % (" ".join(cmd), cwd, p.stdout[-4000:]))


def modfile(scratch):
    """A go.mod for the harness with whatever /repo requires at the moment."""
    dst = os.path.join(scratch, "harness.mod")
    lines = []
    for line in open(os.path.join(REPO, "go.mod")).read().splitlines():
        if line.startswith("module "):
            line = "module verifharness"
        lines.append(line)
    lines += [
        "require github.com/g-rath/osv-detector v0.0.0",
        "require pgregory.net/rapid v1.3.0",
        "replace github.com/g-rath/osv-detector => " + REPO,
        "",
    ]
    with open(dst, "w") as f:
        f.write("\n".join(lines))
    sums = set()
    for p in (os.path.join(REPO, "go.sum"), os.path.join(HERE, "harness", "go.sum")):
        sums.update(open(p).read().splitlines())
    with open(os.path.join(scratch, "harness.sum"), "w") as f:
        f.write("\n".join(sorted(s for s in sums if s)) + "\n")
    return dst


def build(scratch):
    env = go_env()
    env["GOFLAGS"] = "-mod=readonly"
    sh(["go", "build", "-o", os.path.join(scratch, "osv-detector"), "."], REPO, env)
    env["GOFLAGS"] = "-mod=mod"
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + modfile(scratch), "-o", os.path.join(scratch, "harness.test")]
    try:
        sh(cmd + ["-tags=direct", "."], os.path.join(HERE, "harness"), env)
    except Infra as e:
        # the functions of the packages are not as expected: only use the binary
        print("note: building without the in-process checks: %s" % str(e)[:500])
        sh(cmd + ["."], os.path.join(HERE, "harness"), env)


def rapid_seed(seed, shard):
    h = hashlib.sha256(b"%d/%d" % (seed, shard)).digest()
    return int.from_bytes(h[:6], "big") | 1


def run_shard(scratch, prop, tier, seed, shard, scale, budget, limit, extra=()):
    d = os.path.join(scratch, "shard%d" % shard)
    os.makedirs(os.path.join(d, "scratch"))
    env = go_env()
    env.update(
        VERIF_BIN=os.path.join(scratch, "osv-detector"),
        VERIF_OUT=os.path.join(d, "stats.json"),
        VERIF_SCRATCH=os.path.join(d, "scratch"),
        VERIF_TIER=tier,
        VERIF_SCALE=str(scale),
        VERIF_BUDGET_S=str(budget),
        TMPDIR=os.path.join(d, "scratch"),
        GOMAXPROCS="2",
        GOTRACEBACK="single",
    )
    for v in ("OSV_DETECTOR_PREFER_API", "HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy", "NO_PROXY", "no_proxy"):
        env.pop(v, None)
    cmd = [os.path.join(scratch, "harness.test"), "-test.run", "^Test%s$" % prop, "-test.timeout=0",
           "-test.count=1", "-rapid.seed=%d" % rapid_seed(seed, shard), "-rapid.shrinktime=20s"] + list(extra)
    log = os.path.join(d, "log.txt")
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT)
        try:
            code = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            code = "timeout"
    text = open(log, errors="replace").read()
    stats = None
    if os.path.exists(env["VERIF_OUT"]):
        with open(env["VERIF_OUT"]) as f:
            stats = json.load(f)
    return dict(shard=shard, code=code, log=text, stats=stats, dir=d)


def run_fuzz(scratch, prop, conf):
    """Coverage-guided fuzzing of the same property, in process."""
    d = os.path.join(scratch, "fuzz")
    os.makedirs(os.path.join(d, "scratch"))
    env = go_env()
    env.update(GOFLAGS="-mod=mod")
    cmd = ["go", "test", "-c", "-vet=off", "-tags=direct", "-fuzz=" + conf["target"], "-modfile=" + modfile(scratch), "-o", os.path.join(d, "fuzz.test"), "."]
    try:
        sh(cmd, os.path.join(HERE, "harness"), env)
    except Infra as e:
        print("note: no coverage-guided fuzzing: %s" % str(e)[:500])
        return None
    env.update(VERIF_SCRATCH=os.path.join(d, "scratch"), TMPDIR=os.path.join(d, "scratch"), GOTRACEBACK="single")
    log = os.path.join(d, "log.txt")
    cmd = [os.path.join(d, "fuzz.test"), "-test.run=^$", "-test.fuzz=^%s$" % conf["target"], "-test.fuzzcachedir=" + os.path.join(d, "cache"),
           "-test.fuzztime=%ds" % conf["seconds"], "-test.fuzzminimizetime=5x", "-test.parallel=8"]
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT)
        try:
            code = p.wait(timeout=conf["seconds"] + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            code = "timeout"
    text = open(log, errors="replace").read()
    execs = [int(w) for w in re.findall(r"execs: (\d+)", text)]
    corpus = [int(w) for w in re.findall(r"\(total: (\d+)\)", text)]
    return dict(code=code, log=text, dir=d, execs=execs[-1] if execs else 0, corpus=corpus[-1] if corpus else 0, target=conf["target"])


def fuzz_verdict(r):
    failing = glob.glob(os.path.join(r["dir"], "testdata", "fuzz", "*", "*"))
    if "VERIF-INFRA:" in r["log"] or r["code"] == "timeout":
        return "infra", None
    if r["code"] == 0:
        return "ok", None
    if failing and "Failing input written" in r["log"] and "out of memory" not in r["log"] and "signal: killed" not in r["log"]:
        return "violation", failing[0]
    return "infra", None


def verdict(r):
    """ok, violation or infra."""
    if "VERIF-INFRA:" in r["log"] or r["code"] in (3, "timeout") or r["code"] == -9:
        return "infra"
    if r["code"] in (0, 1) and not r["stats"]:
        # the harness always writes its statistics, so the code under test ended the process
        return "violation"
    if r["code"] == 0:
        return "ok"
    if "VERIF-HANG:" in r["log"]:
        return "violation"
    if r["code"] == 1 and "--- FAIL" in r["log"]:
        return "violation"
    # the process died without the test framework noticing, e.g. of a stack
    # overflow or a panic in a goroutine of the code under test
    if r["code"] == 2 and ("goroutine " in r["log"] or "fatal error:" in r["log"] or "panic:" in r["log"]):
        if "out of memory" in r["log"] or "cannot allocate memory" in r["log"]:
            return "infra"
        return "violation"
    return "infra"


def save_replay(prop, tier, seed, scale, r):
    base = os.path.join(HERE, "replays")
    os.makedirs(base, exist_ok=True)
    d = os.path.join(base, "%s-%s-seed%d-shard%d" % (prop, tier, seed, r["shard"]))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    fails = glob.glob(os.path.join(r["dir"], "testdata", "rapid", "**", "*.fail"), recursive=True)
    rel = None
    if fails:
        rel = os.path.relpath(fails[0], os.path.join(r["dir"], "testdata", "rapid"))
        shutil.copy(fails[0], os.path.join(d, "case.fail"))
    with open(os.path.join(d, "log.txt"), "w") as f:
        f.write(r["log"][-200000:])
    j = os.path.join(r["dir"], "stats.json.journal")
    if os.path.exists(j):
        shutil.copy(j, os.path.join(d, "journal.txt"))
    sub = os.path.dirname(rel) if rel else None
    with open(os.path.join(d, "replay.json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, shard=r["shard"], scale=scale, test=sub,
                       how="python3 check.py --replay " + os.path.relpath(d, HERE)), f, indent=1)
    return os.path.relpath(d, HERE)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % prop):
                out.append(line[len("finding: "):].strip())
    return out


def main_check(prop, tier):
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    conf = CHECKS[prop]
    tconf = conf[tier]
    scale, budget = tconf["scale"], tconf["budget_s"]
    limit = budget * 2 + 420 if tier == "thorough" else 700
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        try:
            build(scratch)
        except Infra as e:
            print("ERROR: %s" % e)
            return 3
        t_build = time.time() - start
        with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
            rs = list(ex.map(lambda s: run_shard(scratch, prop, tier, seed, s, scale, budget, limit), range(SHARDS)))
        fuzz = None
        if "fuzz" in tconf and all(verdict(r) == "ok" for r in rs):
            fuzz = run_fuzz(scratch, prop, tconf["fuzz"])
        return report(prop, tier, seed, scale, conf, rs, start, t_build, fuzz)
    finally:
        cleanup(scratch)


def cleanup(scratch):
    # directories made unreadable by a case that was interrupted
    for root, dirs, _ in os.walk(scratch):
        for d in dirs:
            p = os.path.join(root, d)
            if not os.path.islink(p):
                os.chmod(p, 0o700)
    shutil.rmtree(scratch, ignore_errors=True)


def report(prop, tier, seed, scale, conf, rs, start, t_build, fuzz=None):
    hashes, labels, subs, samples = set(), {}, {}, []
    evals = runs = skipped = 0
    for r in rs:
        s = r["stats"]
        if not s:
            continue
        evals += s["evaluations"]
        runs += s["runs"]
        skipped += s["skipped_over_budget"]
        hashes.update(s["hashes"] or [])
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s["subs"].items():
            subs[k] = subs.get(k, 0) + v
        for x in s["samples"] or []:
            if sum(1 for y in samples if y["sub"] == x["sub"]) < 2 and len(json.dumps(x)) < 20000:
                samples.append(x)
    bad = [r for r in rs if verdict(r) == "violation"]
    infra = [r for r in rs if verdict(r) == "infra"]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=conf["level"],
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=len(hashes),
            rule=conf["rule"],
            samples=samples,
            runs_of_the_binary=runs,
            cases_per_subcheck=subs,
            labels=dict(sorted(labels.items())),
            cases_skipped_over_time_budget=skipped,
            shards=len(rs),
        ),
        assumptions=conf.get("assumptions", []),
        wall_s=round(time.time() - start, 2),
        violations=len(bad),
    )
    fuzz_bad = None
    if fuzz:
        v, fuzz_bad = fuzz_verdict(fuzz)
        ev["coverage"]["coverage_guided"] = dict(target=fuzz["target"], executions=fuzz["execs"], corpus=fuzz["corpus"], verdict=v)
        ev["violations"] += v == "violation"
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k)
    if bad:
        for r in bad[:1]:
            path = save_replay(prop, tier, seed, scale, r)
            tail = "\n".join(r["log"].splitlines()[:60])
            print(tail[:6000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if fuzz_bad:
        d = os.path.join(HERE, "replays", "%s-%s-fuzz" % (prop, tier))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(fuzz_bad, os.path.join(d, "input.fuzz"))
        with open(os.path.join(d, "log.txt"), "w") as f:
            f.write(fuzz["log"][-200000:])
        with open(os.path.join(d, "replay.json"), "w") as f:
            json.dump(dict(property=prop, tier=tier, fuzz=fuzz["target"], how="python3 check.py --replay " + os.path.relpath(d, HERE)), f, indent=1)
        print(fuzz["log"][-4000:])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(d, HERE)))
        return 1
    if fuzz and ev["coverage"]["coverage_guided"]["verdict"] != "ok":
        print("ERROR: the fuzzer gave no answer:\n%s" % fuzz["log"][-3000:])
        return 3
    if infra:
        for r in infra:
            print("ERROR: shard %d gave no answer (exit %s):\n%s" % (r["shard"], r["code"], r["log"][-3000:]))
        return 3
    if evals == 0 or not hashes:
        print("ERROR: no non-trivial case was explored")
        return 3
    print("%s: held on %d cases (%d distinct non-trivial, %d runs of the binary, %d skipped) in %.1f s (%.1f s to build)" % (
        prop, evals, len(hashes), runs, skipped, time.time() - start, t_build))
    return 0


def main_replay(path):
    with open(os.path.join(path, "replay.json")) as f:
        rep = json.load(f)
    prop = rep["property"]
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        build(scratch)
        if rep.get("fuzz"):
            return replay_fuzz(scratch, path, rep)
        case = os.path.abspath(os.path.join(path, "case.fail"))
        if os.path.exists(case):
            sub = rep["test"]
            extra = ["-rapid.failfile=" + case, "-test.run", "^Test%s$/^%s$" % (prop, sub.split("/")[-1].split("_", 1)[-1] if sub else "")]
            # the name of the sub-check is what follows Test<ID>/ in the name of the test
            extra = ["-rapid.failfile=" + case, "-test.run", "^Test%s$/%s" % (prop, subname(prop, sub))]
            r = run_shard(scratch, prop, rep["tier"], rep["seed"], rep["shard"], 0.001, 600, 900, extra)
        else:
            r = run_shard(scratch, prop, rep["tier"], rep["seed"], rep["shard"], rep["scale"], 600, 1500)
        print(r["log"])
        v = verdict(r)
        if v == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0 if v == "ok" else 3
    finally:
        cleanup(scratch)


def replay_fuzz(scratch, path, rep):
    d = os.path.join(scratch, "run")
    seeds = os.path.join(d, "testdata", "fuzz", rep["fuzz"])
    os.makedirs(seeds)
    shutil.copy(os.path.join(path, "input.fuzz"), os.path.join(seeds, "input"))
    env = go_env()
    env.update(VERIF_SCRATCH=d, TMPDIR=d)
    p = subprocess.run([os.path.join(scratch, "harness.test"), "-test.run", "^%s$/^input$" % rep["fuzz"], "-test.v"],
                       cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    print(p.stdout[-6000:])
    if p.returncode:
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    return 0


def subname(prop, sub):
    s = (sub or "").replace("\\", "/")
    for sep in ("/", "_"):
        pre = "Test" + prop + sep
        if s.startswith(pre):
            return "^" + s[len(pre):].replace("_", ".") + "$"
    return ""


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        scratch = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(scratch)
        except Infra as e:
            print("ERROR: %s" % e)
            return 3
        finally:
            cleanup(scratch)
        print("the harness builds")
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return main_replay(sys.argv[2])
    if len(sys.argv) != 3 or sys.argv[1] not in CHECKS or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    return main_check(sys.argv[1], sys.argv[2])


if __name__ == "__main__":
    sys.exit(main())
